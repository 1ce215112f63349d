0x00023187e5fbde0bull,
0x00025959f26e5f22ull,
0x00051843e4eefe60ull,
0x0009de572d39b141ull,
0x0010deb980d1a6cfull,
0x0014eb14e2ebdf9cull,
0x001930cdc499d6b7ull,
0x001b396ff10c3d54ull,
0x001d19ee89aabb7aull,
0x002018032476055aull,
0x002020120267c2edull,
0x00258a1751f10df9ull,
0x00286d8e45a39a88ull,
0x0032c05fa837b020ull,
0x0036923c4f95a4d1ull,
0x0040b7d95351c5acull,
0x004ebe82a86189a6ull,
0x0051cf5653176083ull,
0x00568e79fd3a60a3ull,
0x005963d07797e51dull,
0x005ad0f993e98f15ull,
0x005c59852312bdd4ull,
0x005e21cd8727c4eeull,
0x0062b42d4a2b25afull,
0x0068d1f23d3439ceull,
0x006a58510e046096ull,
0x00773cde85a6e20dull,
0x0079c5c2e6a86e5eull,
0x007a7d51ee20a53bull,
0x00812c493da824afull,
0x0084ee2c4fb8a4f2ull,
0x008536724986f54aull,
0x008d05eb6780a41full,
0x008d75b2675ea61dull,
0x008df6dabce809ecull,
0x009091a3261275f5ull,
0x0093e375f95f9fd0ull,
0x0098f890ee263c3full,
0x009b3a4460ae387dull,
0x009e33b3e3d60606ull,
0x009f57d264aaafc6ull,
0x00ad9a7d3892f399ull,
0x00aea9312c3a823aull,
0x00b14d6f8e77a0bdull,
0x00ba3882ea3c8205ull,
0x00c2aebd5742b0c8ull,
0x00c36132f52ae44aull,
0x00c57370ed1e3a87ull,
0x00cd45374db83840ull,
0x00ceb4180b9c186full,
0x00d75db86de1951eull,
0x00dafff70398020eull,
0x00ddf3377e6cffe2ull,
0x00e2da81274f5211ull,
0x00e645c377f57b94ull,
0x00eb2e5f867e5d91ull,
0x00eb39a892f2451aull,
0x00ecec5dc8ba33d2ull,
0x00f04ffa6ce14db8ull,
0x00f1de66877d5d9dull,
0x00fdf8ac82c4dfc5ull,
0x01089fccdefa081eull,
0x010cd2c0b998e232ull,
0x010d566d98d1b8c2ull,
0x010fb16062f6f4ecull,
0x010fc8ef0f4e45f6ull,
0x011394afaf6801e0ull,
0x0117f67af09fba82ull,
0x011a36cd042cd274ull,
0x011d539df03862efull,
0x0120b8d888bc38f6ull,
0x01231d0c09892b2bull,
0x0124389cafbef7b4ull,
0x0129bad4781abf8cull,
0x012ec8c306b08c8full,
0x0132d7607a509471ull,
0x013788f085cb0b71ull,
0x013eb352bcac3a8full,
0x0143526c24597532ull,
0x0148ae3a1846d457ull,
0x014ed047ec5bd2b6ull,
0x014f4995f22587a1ull,
0x01529e4967a7bc72ull,
0x0156318041ea58c9ull,
0x015644c7a528d0a8ull,
0x015b36a70e74e4afull,
0x015b5a3c1f881debull,
0x015bf2f79f55271dull,
0x015c7ab7476cedf0ull,
0x0160204813c2bc8eull,
0x0169d6334df117c0ull,
0x016bf408154faadbull,
0x016d6c3290b4f863ull,
0x016f52e9916ad242ull,
0x016fd8fccacdbd71ull,
0x01786925dc7b8470ull,
0x017ae703f600376eull,
0x017d432e19a49101ull,
0x017fd8573b1a03e2ull,
0x01810d399a29f1a9ull,
0x01856b1fdc53cd3full,
0x0185795095adf1adull,
0x01894929252117e8ull,
0x0195aa2326ed243cull,
0x01a5f8ee0a3934fdull,
0x01abac34c18d5245ull,
0x01ad188557b771d1ull,
0x01ae497b6065ce8dull,
0x01afb019d2ad3aceull,
0x01b3fd432bbd96dcull,
0x01bf52ff5d3fbf51ull,
0x01c65423ba6a7b76ull,
0x01cefeab4729b178ull,
0x01d095d9180927bcull,
0x01d18b5733ad04c7ull,
0x01d6a30898fadf6dull,
0x01db5a2540bcfd2aull,
0x01e0abbc8b023e55ull,
0x01e1a1e033009febull,
0x01e2de9f1ad6d767ull,
0x01e84a6f576e7909ull,
0x01ed87d308ac6ff2ull,
0x01edf06669706531ull,
0x01ee6aa1e2f442f8ull,
0x01f5c717cfac2054ull,
0x01f9adf7a9992363ull,
0x01fa24c0f040335aull,
0x01fb6a91dcebff8cull,
0x01fdfcd1db7755aaull,
0x02006cc5a50d5740ull,
0x02013d6b1d292709ull,
0x0205e3e9f03f40e2ull,
0x020d642cd0d53db1ull,
0x02115bd8e07d45a3ull,
0x02167ee3f25ff81aull,
0x021d264f78e0adb5ull,
0x02211a06204d1629ull,
0x022adb46de64ff3aull,
0x0233fbf9af78b510ull,
0x0234d81d7117d12full,
0x02395a92f62daefaull,
0x0239920b447b39a8ull,
0x023e5751b76660ebull,
0x0240921c62e5fde4ull,
0x0240f56e333e538full,
0x0243ce25a252c757ull,
0x0244ae21c16ca059ull,
0x024abad8565da5feull,
0x02502ede083bbfc8ull,
0x02510381a3591870ull,
0x0255eee0fba4fb28ull,
0x025d0832165a8d3bull,
0x025d8712dd6a07f4ull,
0x025fd5ec59d43710ull,
0x0265e4636c0aa1bcull,
0x026743e56facad1aull,
0x02728d724610a6a3ull,
0x027683433d02d539ull,
0x027b2485c6a6f49eull,
0x0282242f1e302be6ull,
0x02860267428704a1ull,
0x028c4a2f1e5f5dbcull,
0x028cbb245778e293ull,
0x028e7353af75b01bull,
0x02956092d0aa8bdfull,
0x029afac5b7f18a2eull,
0x02a32d57f3deca7dull,
0x02a5ae9af64d9535ull,
0x02a9dcbed76ba3caull,
0x02aba70c2c9f4f3dull,
0x02ace32d097f912full,
0x02b23a41a09a3867ull,
0x02b4cc96320e004dull,
0x02b668fd00c5597full,
0x02b8cd7a1e30ce86ull,
0x02c0dd04f6ec6433ull,
0x02c7d7a3902713e8ull,
0x02c9b76464c31cd0ull,
0x02d3a1322be598bbull,
0x02d73e1afc14e28cull,
0x02d7c6e4275c5ae2ull,
0x02d9f644c4ae8d94ull,
0x02dca4586e6fc5b0ull,
0x02e5085d20dd60cfull,
0x02e5bfb58683e084ull,
0x02eb1de3a1056abdull,
0x02ec3690f4e589a0ull,
0x02f0087fdcf75bcdull,
0x02f0c34942984653ull,
0x02f0d1005a484c1dull,
0x02f1d1bcd1f7da4bull,
0x02f1d5da24c82168ull,
0x02f25d53c551757eull,
0x02f9976528532daeull,
0x02fb41f981613c1full,
0x02fde385a5367861ull,
0x030605d754c47b6aull,
0x030e4b3dcafb0602ull,
0x030ee057f73b1579ull,
0x0311d82f68f2c004ull,
0x03185b9608876473ull,
0x03295c3e73f063f1ull,
0x032f4117e18d9067ull,
0x03390ae8c8a10f76ull,
0x033ea8f8c2afbbabull,
0x033f78ab90f9bf71ull,
0x0346d3ce1094e429ull,
0x0355445c87b027e3ull,
0x0360b2e1431399b5ull,
0x0360cf8e47cb78b8ull,
0x036dfe7fb3b583c3ull,
0x0379df3c3e393d73ull,
0x0382b65243646eadull,
0x03866a5e1e6e3d00ull,
0x0386e13fd0b10f72ull,
0x038815c1151b0f04ull,
0x0388dd6a9c51db7cull,
0x039fba76be910ed8ull,
0x03a00ce9a6f4e730ull,
0x03a3a68e826fca06ull,
0x03a57a3cc5f1e8a4ull,
0x03ad4fffc17e9f16ull,
0x03aef00872bf3530ull,
0x03b6c27b353b9c77ull,
0x03c3e0237133c341ull,
0x03d3294390aea5c5ull,
0x03d4dc7fd665a2abull,
0x03d535f934059482ull,
0x03e9ffec7e7c39c3ull,
0x03f03377acb7c509ull,
0x03f6b3f99b50e014ull,
0x03fa4dda53fa9fdeull,
0x0400d92fa79ef882ull,
0x040e3fc4bbffa98cull,
0x04110dc3335e2924ull,
0x0419f94018b5289aull,
0x041ea1b65e1e9187ull,
0x0421efef066e214dull,
0x04227c09fc2bb65eull,
0x04235bcd617c60a1ull,
0x0423702fde6da4e1ull,
0x0428108a536d0b9bull,
0x04281b4a82d970b9ull,
0x042baf81e1af04efull,
0x04370fa3da282163ull,
0x04401dced4511d7aull,
0x044c4c695b75c55bull,
0x044c9e93bfa13afcull,
0x044fa4fda6cd910full,
0x0452403e49c4aff0ull,
0x04541f276110feb1ull,
0x045605f5f6b19bf9ull,
0x045c157663f73b0dull,
0x045dabdd973d7337ull,
0x0462f172f16fadebull,
0x0463df170df1336bull,
0x0467e23652dbf41dull,
0x04685929626b145full,
0x0472b4834090974aull,
0x04767df631761062ull,
0x0477af44d94fff56ull,
0x0477e2c946211389ull,
0x047a4c7e0ebc07d0ull,
0x047c5bd4271750a6ull,
0x047f526508eefaa5ull,
0x048035e64556a304ull,
0x04827daff5c36ce5ull,
0x04839619f89052c5ull,
0x0484d7adff3f9996ull,
0x048de8f741afbecaull,
0x04995fd58818a3b9ull,
0x04996c359468a65bull,
0x04999a95f4609c6dull,
0x049afdcdc33d5567ull,
0x04ac4aa2aceb77aeull,
0x04aec2e2968c57b9ull,
0x04beaa3840306ab9ull,
0x04c91f7dec1d4425ull,
0x04d04b1e75876d88ull,
0x04d13ddc9b200f6eull,
0x04d178d0b204c452ull,
0x04d2fe8b878384c5ull,
0x04d340e269417646ull,
0x04d561d97c831d85ull,
0x04dbeee7b98d5f54ull,
0x04dedc80fb17d542ull,
0x04e004fca5ffbe31ull,
0x04e224fa0d3d3c60ull,
0x04ed1025561eecb8ull,
0x04f24eef2366c50bull,
0x04f8066d47988411ull,
0x050aec0a72397c40ull,
0x050e54b7e0684f05ull,
0x051c6181664f5fc6ull,
0x051f8cc496ed1fddull,
0x0521347020684a22ull,
0x052418fa19d42d0aull,
0x052fc100361f4f73ull,
0x0532bab78806b7f9ull,
0x0538a9f4f99f4dcdull,
0x053ff45ec08e11a9ull,
0x054f0d6a9fb8969aull,
0x055852163ec4fa2full,
0x0558f2113cc75b3aull,
0x0560014a41cf1edcull,
0x0563754d135e2073ull,
0x0567ea0c385d4353ull,
0x0572f43a98128046ull,
0x057a4cb0ba38ba68ull,
0x0588ae916e14008aull,
0x058d4fd0b8d0668bull,
0x05993f689fa7a049ull,
0x059d6c6153ad1f60ull,
0x05a0f348a4c56d50ull,
0x05a1873e54e3b502ull,
0x05a2ea2087b7417dull,
0x05a97e1ee9256b46ull,
0x05b6dd77dd7cce0eull,
0x05b7b6653ab0ae80ull,
0x05bc93434cd6a185ull,
0x05bdd28f7b92ad93ull,
0x05be0f287bd3983cull,
0x05be3184ab537c61ull,
0x05c1d929f9fa5a7bull,
0x05d208629def330cull,
0x05df3c6137d96a93ull,
0x05e1177261470c4aull,
0x05e20d4e7d9d053cull,
0x05e2c081a646214bull,
0x05e9e1f407d78cd4ull,
0x05ee1e17bab66859ull,
0x05ef9106aea4f550ull,
0x05fb68572551f9cfull,
0x05fbafaad97b2331ull,
0x05fbc77300e34561ull,
0x06012de9902813a3ull,
0x0603b506bfd9c7f4ull,
0x060e9f5e3418010dull,
0x0610a3c7ba4d377full,
0x0610e977a792583full,
0x0611f6ba7098176dull,
0x06168518d8bb538bull,
0x061c2dd03fc833c1ull,
0x06213141bdb75041ull,
0x06219501ab5eecc2ull,
0x062359b2c697b0efull,
0x06288dc13c6e892full,
0x062b04e638cab70dull,
0x062d91d638104420ull,
0x06364c41f80f591cull,
0x063a7b706df758e5ull,
0x063cfd8aad0d9a0eull,
0x06413888abd259d1ull,
0x064b1da9770885b3ull,
0x066208df29d4709bull,
0x0662906d1d9504faull,
0x0663f5d5140d95acull,
0x0666b83aaea1c167ull,
0x0667790928cdeab4ull,
0x0668596683875930ull,
0x066a432110075473ull,
0x066dc8151adf6e0full,
0x067200dc3331fc6eull,
0x0674997a2423ca5aull,
0x067d7cb72a7737fbull,
0x067f25974b3e0223ull,
0x0686719f7e70f244ull,
0x068abf2a2e4b0543ull,
0x068d73123356b154ull,
0x068ec32656f11616ull,
0x06924473fdfe5f2eull,
0x0697d68e56ae339full,
0x069a9e357aaeed3dull,
0x069fd7908d586dadull,
0x06a3188831af3487ull,
0x06a7b701d6646790ull,
0x06a81224fa0c53d1ull,
0x06abb01e3f9ab21cull,
0x06b76ccd0a1066caull,
0x06b7c36ab820bea2ull,
0x06bff387d9129d64ull,
0x06c0c4bc032db883ull,
0x06c3a38cf5e10669ull,
0x06c84b93e317560full,
0x06cbd18b84fbb001ull,
0x06d39ec3c43fa070ull,
0x06d5e5f9b1cfcf9dull,
0x06dcafbcdea7a865ull,
0x06dd2c90ee5a624dull,
0x06dda2df5707e7eeull,
0x06e54f855dfb2571ull,
0x06e596e64aa80a81ull,
0x06e6341e5fde368aull,
0x06e710ec66731c25ull,
0x06ea1bd75e88d9a3ull,
0x06ffa00b2b8fbc52ull,
0x0707fa123ebdf928ull,
0x0708baf1acae4ff2ull,
0x070b294de8c99fc5ull,
0x070ddabbf7535772ull,
0x070f2bb7a072a3feull,
0x071547dc468b171bull,
0x0716b597ac9fd89eull,
0x071afc88cc72299full,
0x071b9fea2d39acd8ull,
0x071d150aca624321ull,
0x071d8d1ca133405eull,
0x07270f4c762aa529ull,
0x072e622c5ec657adull,
0x072f79995fa159ccull,
0x073598232b85405cull,
0x07399ff7cb352e92ull,
0x074209b74c057a27ull,
0x07440496298888c0ull,
0x074f50c8dab4304full,
0x075bf72bd28ea64dull,
0x075f0a58242cde69ull,
0x07680523ec9fd3e7ull,
0x07795250c90e2549ull,
0x077f84627abdfce5ull,
0x0780f239a548ed59ull,
0x0783f8bd91db78d9ull,
0x0785cc421d9fcca6ull,
0x07866d6f9ea460bfull,
0x0789346ddade15d7ull,
0x078a4c67e4999a73ull,
0x079117c1caa5a390ull,
0x07930dde16041d81ull,
0x0796e3fbb8fae848ull,
0x079d5af20b7ae31full,
0x07aa7d6a4367fd49ull,
0x07b8b4d91ea1250dull,
0x07bfd2730698b41eull,
0x07c1c034a13c4bd8ull,
0x07c2bbc331b6034full,
0x07c30091f5777521ull,
0x07cce6e1913620f6ull,
0x07d1ecd1e91ea259ull,
0x07d38f6c04fcd614ull,
0x07dbd136882f4331ull,
0x07dee6809b2e462cull,
0x07e80bc4b62589e8ull,
0x07e9440336f79292ull,
0x07efc52e2e7278bbull,
0x07f3b61039be518aull,
0x07faf38b3dd7c5b9ull,
0x0801eea9ea44882bull,
0x0808abd29b8030d5ull,
0x08107edb29371f9cull,
0x081c82836c86692dull,
0x0820fd6a349f5875ull,
0x082cb7d0a583e893ull,
0x0833edc6429a9972ull,
0x083bd45b120cfc4full,
0x083d1ead5a8fc1b7ull,
0x083d1f8a5606fc19ull,
0x084b357f9582f2c9ull,
0x0855dd05ab4c6998ull,
0x085ba37df72bf444ull,
0x085f324c2064e5a8ull,
0x086200630fd734c0ull,
0x0862bebdb5840743ull,
0x0869015d3225d884ull,
0x0872f402e2c497f1ull,
0x0875459c1f3600e4ull,
0x087a887f214e66dbull,
0x0885daf897041fa5ull,
0x08899e4aca6b5154ull,
0x088fa0e58dd77a72ull,
0x089d44f6b544f118ull,
0x08ac6ce8359491c5ull,
0x08ad33bf1ef6a241ull,
0x08ad63abb72fc946ull,
0x08b4801645376ab6ull,
0x08b57f93c7cc6bb6ull,
0x08c23f5e42e7c40aull,
0x08c4c1c15c45ab67ull,
0x08c54f7a41b21942ull,
0x08cf33a24ab9915dull,
0x08d1b81ea56becc1ull,
0x08d57560e218720cull,
0x08d60357d29e7e21ull,
0x08d6881aefac3a95ull,
0x08d8a32966664c06ull,
0x08de5e33960b257cull,
0x08df22f52974a4e0ull,
0x08df30bc265a6823ull,
0x08e0ebb770d58a47ull,
0x08e74bcc5f19c1fdull,
0x08eda990f165227cull,
0x08fa23bbc191e6a8ull,
0x08fb09e189eb4436ull,
0x08ffdb0f4cb930bfull,
0x0910b42a3d513d64ull,
0x091eca9a313ac32cull,
0x09212cd6186031e7ull,
0x0921acdf998ea10bull,
0x09240dd85a622376ull,
0x0927c45b494a3005ull,
0x0929319e0ddd6dafull,
0x092c054033e6fbbdull,
0x092ec85d0a411db3ull,
0x0932f981ac0204d5ull,
0x093ce2fc5dd4a786ull,
0x093cfbb52c49c86bull,
0x0940f7012c291c82ull,
0x09504f5bfa13f261ull,
0x0955ebeb762442feull,
0x0963a26d0a6be019ull,
0x0966c0b761880bcfull,
0x096ad92e7f6bbd7eull,
0x09730e09f1607b51ull,
0x0973d48f6a6fba3dull,
0x09826cc48d335918ull,
0x09895179714c3ad6ull,
0x098a886a7b74e4e0ull,
0x09930dea6ab6d080ull,
0x0993f3c3b0412549ull,
0x09969ab69e845ffaull,
0x099fb57be69b8753ull,
0x09a3b8688fd2fa9cull,
0x09a5a50f1998acfdull,
0x09a705facf586fd7ull,
0x09a8be66a6d41e8eull,
0x09ba5c2bd46bd7a0ull,
0x09c43fa4f2009e31ull,
0x09c5e6720a4ddf1full,
0x09d238c05729b9e3ull,
0x09dbdba416e4d811ull,
0x09df7f9d319e8fdfull,
0x09e2062972a078a5ull,
0x09e52a305e5d5d2eull,
0x09e6004483ccfa16ull,
0x09eb7dfce91bc7f7ull,
0x09f3c6e4bd74a3b2ull,
0x09f58011f9b561ffull,
0x09fc8036edc0e3e5ull,
0x0a005474777249cfull,
0x0a0278ecb9e57576ull,
0x0a02ba49c4bf6971ull,
0x0a0815cb53419a68ull,
0x0a11545319d1b784ull,
0x0a1251f918a8291cull,
0x0a1607acb06cd874ull,
0x0a18bef61432f0fdull,
0x0a198996b7ca457bull,
0x0a1e7a8cb4dde783ull,
0x0a1f6b2b491d8911ull,
0x0a1fedb7e8e6fb0eull,
0x0a2a1a03bda9705aull,
0x0a2ac594f026ca69ull,
0x0a2ccccceef36016ull,
0x0a32d30a7aebc509ull,
0x0a334f5279eea4e6ull,
0x0a35202eee67e099ull,
0x0a387c74925e72aaull,
0x0a3da7bc3a3ca295ull,
0x0a403f3dd0017a93ull,
0x0a433ebdb43aa584ull,
0x0a44d1addbd2c4e8ull,
0x0a4f50e620f8c95bull,
0x0a52d6dfa96c5afcull,
0x0a55b35a9e25ed16ull,
0x0a58cd15e925636full,
0x0a71bdb00e2eaa76ull,
0x0a742525ac675a37ull,
0x0a748d0ef35b7a64ull,
0x0a75c192220de1c7ull,
0x0a7702e68eb4e644ull,
0x0a77bcdc0805be6eull,
0x0a7b95ef059bb1abull,
0x0a7d7b3e6f531906ull,
0x0a7e94782a4cfa49ull,
0x0a805ea219a651e4ull,
0x0a81e7f41124007cull,
0x0a86d0f26d28dac3ull,
0x0a88d0b6a87941fcull,
0x0a943bfa0746c0f4ull,
0x0a96269e9362eb5bull,
0x0a973748a663c9c4ull,
0x0aa02707b8a6c046ull,
0x0aa26b6428c78ba8ull,
0x0aa818d1f8a8715full,
0x0ab3e24f576e1a19ull,
0x0aba79830c1c66a2ull,
0x0abc017e59e79118ull,
0x0ac15ea1068bf183ull,
0x0ac6e9dd6e37e3b4ull,
0x0ac7009bffe176faull,
0x0ad380a86e06d3f2ull,
0x0ada9450344aed45ull,
0x0addd88a4e703f2aull,
0x0ae3b44ac0f12b7eull,
0x0ae488d2eafdfdfdull,
0x0aebe24b6205aa7full,
0x0af0e0901e291872ull,
0x0afbb1f04d2762f2ull,
0x0b0906777aff807aull,
0x0b0934abab6d61ebull,
0x0b0bbb37a148c2e5ull,
0x0b0cc34faa6bb699ull,
0x0b157503dd5ccecdull,
0x0b19bf0a913c5ed2ull,
0x0b1e368c8dcae22aull,
0x0b2423e77e6ce1e3ull,
0x0b2575eca1932d6bull,
0x0b25f4ca4535d5c2ull,
0x0b2f5164cd438bf6ull,
0x0b38684dd83d4182ull,
0x0b3b46f49018cb92ull,
0x0b3e1a07164f2dd8ull,
0x0b40ae4a308f2cbfull,
0x0b41f8b6ff71ec47ull,
0x0b431c0c7bfee8c1ull,
0x0b45a8b98acadc9full,
0x0b46c890b934ea96ull,
0x0b4b5f94dd55e159ull,
0x0b4d005af0f0b792ull,
0x0b4d45928630b26aull,
0x0b4fe07d3c036989ull,
0x0b54c1df85b5a578ull,
0x0b563b068fa81cb4ull,
0x0b5c3e6529af61d7ull,
0x0b61ec2c889d33b0ull,
0x0b6630eb029af4afull,
0x0b6b240ca73c2412ull,
0x0b6facabec4f42ebull,
0x0b753811c573cffbull,
0x0b7b0de1a2016ab2ull,
0x0b7c68a323fca32aull,
0x0b88fe677d1ffcb0ull,
0x0b90d86ff0df1e47ull,
0x0b924749223fb700ull,
0x0b931d021ed4a9c2ull,
0x0b948026effa4874ull,
0x0b97f055f5ca6179ull,
0x0b9cd35bc383d03dull,
0x0b9de4c323fe682bull,
0x0ba6abdc4674f5caull,
0x0bb86c82508791b8ull,
0x0bbb340ab0205ce5ull,
0x0bbc76a0e8c0513aull,
0x0bc021715e0d8430ull,
0x0bc2cfd14c05f572ull,
0x0bcb245774ea82b2ull,
0x0bd06d31759c5e4eull,
0x0bd6e166b880c4b5ull,
0x0be2d239957399dbull,
0x0bf3993c28dca277ull,
0x0bf57778cd2e3c9aull,
0x0c059ea44f15e98cull,
0x0c07819484721153ull,
0x0c083eabd0f18962ull,
0x0c0b728a55a1ef3aull,
0x0c0c1aa927de12c4ull,
0x0c12007a5a5fe876ull,
0x0c221f82d5c44ba6ull,
0x0c26d2cb8a1b966eull,
0x0c28433e653e1d26ull,
0x0c31fcba2ce061e7ull,
0x0c3565f693756544ull,
0x0c368e6f604125beull,
0x0c3855ffd6a6b718ull,
0x0c3badb186cb28e0ull,
0x0c3f4539f07bced1ull,
0x0c43987e8b2000feull,
0x0c463ab7e7f970f0ull,
0x0c4cbf2e0e9ec6e0ull,
0x0c4f06c26ef0451eull,
0x0c5518ab43140462ull,
0x0c561240fdb1770full,
0x0c563ba07261788cull,
0x0c57cf5b918da1beull,
0x0c61da3c899f1511ull,
0x0c63d6de85867838ull,
0x0c69fd2313493bafull,
0x0c6f63ddfeac83e0ull,
0x0c74b25abf16cfa2ull,
0x0c7aaa126254e56eull,
0x0c7d6d2e90b880dcull,
0x0c7d826f23332ae8ull,
0x0c8391a995017187ull,
0x0c87878fca68b305ull,
0x0c87d08acb3c1e28ull,
0x0c8aa48e648c72efull,
0x0c92901e3f1f3d99ull,
0x0c99bb89a2423493ull,
0x0c9a3a7deace9fe9ull,
0x0c9be8f1f54cda35ull,
0x0c9d24e5c51729bdull,
0x0c9d2ae908f49a8dull,
0x0ca0d3c5f323d451ull,
0x0ca188e2d102b55cull,
0x0ca7205e5d4b9e73ull,
0x0cac19f557a6b7aeull,
0x0cb2366764ce96beull,
0x0cb39c2692ddd4b7ull,
0x0cb744bb0d128670ull,
0x0cc23cb01366ab43ull,
0x0cc27cb75e00f169ull,
0x0cc491e8ffeb2dd7ull,
0x0cc5a2bbf4853531ull,
0x0cc5da091b51342cull,
0x0cc7bb0914bc4333ull,
0x0cc8e798fb5f2867ull,
0x0ccb2d7fbc524c7eull,
0x0cd573ddca65f21full,
0x0cdb51ef2a38ca0cull,
0x0cddb4cfb9a60fc1ull,
0x0cee4b343f0abac1ull,
0x0cf47f938b7745a1ull,
0x0cf6b4308649f41dull,
0x0cf795d1a2240257ull,
0x0d06c07ef487a07cull,
0x0d122a857b708aadull,
0x0d1963d5e3b342aeull,
0x0d245c72ec1f8582ull,
0x0d283fe9129c63a6ull,
0x0d2a064050dda25eull,
0x0d2ac735ce990404ull,
0x0d2ba7e9168852f2ull,
0x0d2e713e6538d183ull,
0x0d32ff833b87141full,
0x0d36eae563db7ef8ull,
0x0d3ca9aa262bc3c3ull,
0x0d422421530542eaull,
0x0d443237167854e2ull,
0x0d4d2e0e23726e5eull,
0x0d5ff233fcb29a08ull,
0x0d61850dbb610c1cull,
0x0d6303a3f2ce620bull,
0x0d717c0799e71cc3ull,
0x0d74a3487c671169ull,
0x0d75d2cf81ca996cull,
0x0d75e9d1349993f6ull,
0x0d77965da2c8073bull,
0x0d79a311745a2281ull,
0x0d824963b665d9cfull,
0x0d8a3dce0eab89d0ull,
0x0d8b3a70fcd78dedull,
0x0d8e0979e5a887e1ull,
0x0d90bbf6aa9e4891ull,
0x0d91eebfefe4c65dull,
0x0d93626be1b1367bull,
0x0d948380bed8d55full,
0x0d96df36c0a61c50ull,
0x0d994b16b179bb3dull,
0x0d9e17d9c813e8b7ull,
0x0d9e303746c2ff3bull,
0x0da731d3b77a37e2ull,
0x0da79313f89a6571ull,
0x0db4bf456286e644ull,
0x0db5caf91a156362ull,
0x0dbbfb7d2baee5bcull,
0x0dc33d382a8e85e3ull,
0x0dc55ecad975dbcaull,
0x0dd373f8f7939ae9ull,
0x0dd54a3d56dd7467ull,
0x0ddb855d625d0d3bull,
0x0de4d639a4d847d5ull,
0x0de730abc9aa9b2eull,
0x0dfd6c27aee45ddfull,
0x0e00618147a90872ull,
0x0e008c7468dc856aull,
0x0e089c6fabe77c99ull,
0x0e0bea4546725827ull,
0x0e0c3117f8b3ac89ull,
0x0e0fbf7a30a6af43ull,
0x0e220af8cd62e9f0ull,
0x0e26e0ae1f1acdcdull,
0x0e2c8018d5fc5054ull,
0x0e341bc13e2d8f48ull,
0x0e36dab178cad9ccull,
0x0e3706265c88b082ull,
0x0e3aa0f196c84397ull,
0x0e4d80dfc1eb283cull,
0x0e4fa0ecc83554ddull,
0x0e59319c519114d7ull,
0x0e5e2360c797effeull,
0x0e5e5fe40f8e44beull,
0x0e60d163dd4ccfa2ull,
0x0e65b2ad908e743full,
0x0e6891f034eb4f6bull,
0x0e84a842a4851feaull,
0x0e88d5329c925655ull,
0x0e9394f5fae9b044ull,
0x0e978abfc18140ccull,
0x0e9c3ea316dd1c24ull,
0x0e9c7825eb9a7814ull,
0x0ea8b49174ec23c1ull,
0x0eb3d84bf259a7b2ull,
0x0eb4109d1ae5647bull,
0x0eb4f124e6d002caull,
0x0eb63d0772b5ae5eull,
0x0eb74743319c97d2ull,
0x0ebab8ed9ae41720ull,
0x0ebb4ae6a7f0fa17ull,
0x0ebd9cbace7665eaull,
0x0ecff74ff9416300ull,
0x0ed341610edc41afull,
0x0ed3cb977ca03107ull,
0x0ed46a05aa9f30cdull,
0x0ed5c135d364a6c7ull,
0x0ed61c00590f7d1full,
0x0edc5e12443135d0ull,
0x0ee7e081c8106df7ull,
0x0eef2e1e919df688ull,
0x0ef3b04726576b97ull,
0x0ef5a12840d36ca0ull,
0x0efc31f16f83d5f1ull,
0x0efe7d3cc4ba1953ull,
0x0f064bc2af253106ull,
0x0f06864c2376548cull,
0x0f0a9207cddb1336ull,
0x0f244d36bcfa9899ull,
0x0f280c5e8081d626ull,
0x0f348c873100462cull,
0x0f34fc3001b3613bull,
0x0f3a3d72b9f57bb1ull,
0x0f3ca68c15e2e608ull,
0x0f3d274e653a5cf0ull,
0x0f3e8df1fe267475ull,
0x0f434ebe27c9415dull,
0x0f46b15a11b36143ull,
0x0f4b6337f4fd7551ull,
0x0f5643543b2b1c61ull,
0x0f568e7caef8972aull,
0x0f5721eda8f2a905ull,
0x0f59c5372b7953f3ull,
0x0f6455301d4aa71dull,
0x0f6a67b82f161575ull,
0x0f6dd204446b1a3full,
0x0f6ee98c894d7fbaull,
0x0f72eb58181f2722ull,
0x0f741e0892d730b6ull,
0x0f745fa33546b73full,
0x0f7c170e98ad33aeull,
0x0f838b89c5941024ull,
0x0f85b39e03bb6eb3ull,
0x0f9066fd791595b8ull,
0x0f95d17cb6bfff62ull,
0x0f9a24483c0a3547ull,
0x0f9a543b99e6e1ffull,
0x0f9b712e05973dc4ull,
0x0f9d9e6b791eaf7full,
0x0f9fdf15841bacf4ull,
0x0fa312c252cbb658ull,
0x0fad2e80a16200afull,
0x0faeb7db0bfe6aacull,
0x0fb2530a7ee289bfull,
0x0fb563b1592f7254ull,
0x0fbe4334961b7dcaull,
0x0fc6b43028688d55ull,
0x0fc855649cdc6f71ull,
0x0fca99ba58eeec63ull,
0x0fcae71403a0e6fbull,
0x0fcc499cadf8798dull,
0x0fd5139455995404ull,
0x0fdb435144ae5b44ull,
0x0fdc65b539d188feull,
0x0fde3838d927703dull,
0x0fde647f4996b001ull,
0x0ff6220a9b9d975full,
0x0ff8d656e1c44a34ull,
0x100c6eb6c9de6123ull,
0x10197e990956d3bdull,
0x101f1ca0c54a34d4ull,
0x101fceeab0c93e90ull,
0x10207f1e4f18b2c9ull,
0x10212517266d0bfcull,
0x102167507125b18aull,
0x102183b722b696a3ull,
0x1021f5f0d3161899ull,
0x102885981dba0170ull,
0x1029af1411beda4aull,
0x10306215e90b7746ull,
0x1034201c1061530full,
0x10417595373bed31ull,
0x1049f1e7bde0c272ull,
0x104dea6b74e61f2full,
0x10572c7b45f21927ull,
0x1057a0e06ace1709ull,
0x105da6ca8edd39c1ull,
0x1061fca4c1cd3b91ull,
0x1068b586c02a9708ull,
0x106b7372ba57c100ull,
0x10814c5aa986925bull,
0x10832870dec224efull,
0x108528719a249bb5ull,
0x10856e8e51895224ull,
0x108a13a2bd607315ull,
0x10997c4e26811c4eull,
0x10997e1a3beac148ull,
0x109b0e47808b5b4full,
0x10b1e50d03dc2978ull,
0x10b57fbc35df98aeull,
0x10c3564699ce973dull,
0x10c648fc6b94aeb1ull,
0x10c8889e4b7f2636ull,
0x10cc6c0d10bbb255ull,
0x10d03b0965963a78ull,
0x10d5b96606ae77e2ull,
0x10dc6ebab39a8f24ull,
0x10dfed26dba1361bull,
0x10e2ebe1148cdd92ull,
0x10e30f5856f0a7f1ull,
0x10e7131450999aadull,
0x10ed12ec1b123b97ull,
0x10ed69ec91440c52ull,
0x10f51f476e008b1full,
0x10f7668dd67ee5daull,
0x1103e5a514398526ull,
0x11118079ca44d886ull,
0x11146b613b8488c9ull,
0x111da369119ec57dull,
0x11228d8dfb147c8eull,
0x112644591bd1b3ccull,
0x1126985aa2531b75ull,
0x1129068739c625aeull,
0x112c46e2acacdc3bull,
0x112cdf25fc7cceb5ull,
0x11310f46e04b0191ull,
0x11420de79f9f623full,
0x11435f9c908529c0ull,
0x114884ffe9223f1dull,
0x114f0c29ab53f612ull,
0x1152998656a19b9eull,
0x11529dc01e4141bbull,
0x11533dbeaeca9796ull,
0x1159aeaec7b236c5ull,
0x115b51080f4754ffull,
0x11604884d444234eull,
0x1162877facac82c0ull,
0x116416e710e3ac12ull,
0x1168973268113df4ull,
0x116ad4befd3d08fcull,
0x116c4da1bcd69e09ull,
0x116e56e1138c0f05ull,
0x11762dd1652b44d1ull,
0x1178eabaecf2d3d4ull,
0x11796f57d5134a16ull,
0x117b3f28881f691full,
0x11854a3cf57e596aull,
0x11894fbc0dc82cd4ull,
0x118e1cfd802df3cbull,
0x119219fb0ecd5741ull,
0x11961b5aa3544da2ull,
0x119888c0e8e2da4eull,
0x119d9933306bfce0ull,
0x11a7307583c9b7d2ull,
0x11acfc7df60dfc81ull,
0x11aefddaf55f204dull,
0x11afaac06526344aull,
0x11b1228e16fa0183ull,
0x11b65d0e925d5915ull,
0x11bdb51e27b0152eull,
0x11cd34c64ef1b2b5ull,
0x11cd70cce72bdd46ull,
0x11cea8ed8009a52full,
0x11d71e0b6f67fd2aull,
0x11d73a4105146738ull,
0x11d9b7540affd4fcull,
0x11e6534035fe052dull,
0x11eb73696339515dull,
0x11f6d3a647b2c5c8ull,
0x11fbe668f577b752ull,
0x1201960f8f0095a8ull,
0x120488c133a68c8aull,
0x12077c62a314edcbull,
0x1207ecb6a96738c8ull,
0x120a1eb502ead4e5ull,
0x120f8fd6e4c15d99ull,
0x121021d424752381ull,
0x1219ee7c399b5b26ull,
0x122d5ecb02a3bb77ull,
0x122e51162adf15d9ull,
0x122ff27f9fdfe8e7ull,
0x12357b7e92dfd4b6ull,
0x12466f094735c50bull,
0x124b554979faa97bull,
0x124e4d7539ee7109ull,
0x124ed348397c545bull,
0x12518adee0975291ull,
0x1257337bc678803cull,
0x1257feb1053f35fdull,
0x125c49028876deddull,
0x125c5ee7a277fc85ull,
0x125e878d09002b69ull,
0x1260316ba2f46913ull,
0x12674dc0b5b0dfd5ull,
0x12704c671974d67eull,
0x127d1cc5590e7c36ull,
0x127db1835739bd2aull,
0x128511868d359eeaull,
0x1287bb8b167b3ad7ull,
0x1288c79014eb9d6bull,
0x1297e5a91b5e230eull,
0x129e9ff23a3e93e8ull,
0x12c45db04623fa66ull,
0x12d9235cbc032517ull,
0x12e1a2d56fa2a952ull,
0x12e5a990f24b6f39ull,
0x12e7a558ff2bf8c0ull,
0x12f1af462bc1cb8aull,
0x12f4b86847e16ddfull,
0x12fd8977a14babf5ull,
0x130465e21e70f495ull,
0x1306429b3f7d5531ull,
0x13094ff878f6b6caull,
0x130a2b26a5540574ull,
0x130c2b7592538e10ull,
0x130d52e6dec39cc4ull,
0x130d7e1ce4ad55c5ull,
0x130fd384fa2b83bfull,
0x1312675441fcc42aull,
0x1312c36bbb0e91a5ull,
0x1316218a2424c1cbull,
0x13164b12dd12648aull,
0x1316e4583d6ba6f2ull,
0x131f34b01379fe1cull,
0x13222c7d860451c1ull,
0x1323e253e7f77899ull,
0x13241fb5af032feeull,
0x1328a5db62ce21e9ull,
0x132902de3873984aull,
0x1329e44a1ae8328dull,
0x132c226a62b2fcfaull,
0x132ecca998db5d44ull,
0x13398ac4537ccb25ull,
0x13492527a0f0e0a0ull,
0x135003700e7a2922ull,
0x135b989e3c69a94aull,
0x1361013f99434aadull,
0x13620e8348f9fb40ull,
0x136a213da0f59c22ull,
0x136dbb37f19f6f73ull,
0x136f8420061aab5bull,
0x1371ef0cdaa518c2ull,
0x13731870ed4f738bull,
0x1378fceae5628286ull,
0x1388022122d7f801ull,
0x138b9ddeb900554dull,
0x13935a1f435a61feull,
0x13a8db60c943c748ull,
0x13a9eceb2a446629ull,
0x13b0aec406c5400eull,
0x13b912a0425d2e41ull,
0x13beb42e1ad40a5cull,
0x13c15c1182c8e877ull,
0x13d3b027aef4e244ull,
0x13d881d746db3654ull,
0x13dcaf2071dec521ull,
0x13e9428318d20111ull,
0x13ea084b9c1eec13ull,
0x13ece6560288b10cull,
0x13f1113cb0dee537ull,
0x13f7187f279ee19aull,
0x13f8aeccead143cdull,
0x1403e4fbba936eeaull,
0x1407dd2cc3c01319ull,
0x140a47cf65c9f392ull,
0x141d6f137c730f98ull,
0x14267ba231f43148ull,
0x14289cb448a72460ull,
0x14291347f211617full,
0x142edc7dd5a1e611ull,
0x14373203e9b22f4aull,
0x1445fa123ad8f682ull,
0x144a35b199ff7b82ull,
0x144bc9cc2b12ab13ull,
0x144cfa6c5f5fa1c3ull,
0x14511e55676b50f6ull,
0x14552e395bf111c1ull,
0x145548f733b896ebull,
0x1457c1b1ed3d61fdull,
0x145c6da1af447ce6ull,
0x145d418599aa17a4ull,
0x1473a02c38dac5d1ull,
0x14784ea3fa036dfaull,
0x148274bc18d240f3ull,
0x14884589fd3c2dd2ull,
0x148a91a8446aaa9cull,
0x149dcd8918dde884ull,
0x149f210069b36cabull,
0x14a00bcea15c1bd5ull,
0x14aad3d722911e1cull,
0x14af9f8770d732daull,
0x14b8cd495c56af14ull,
0x14bfb1967f38ed01ull,
0x14c521627f79b7f7ull,
0x14cb8fa4dda88577ull,
0x14e2442bde15115eull,
0x14f2be9bc04b56acull,
0x14f37c5b64aef63cull,
0x14f37fd0a2917c6full,
0x14f4c1107100f5cfull,
0x14f85c08ffe985adull,
0x14ffbb6d28f6a9c1ull,
0x150464b8b0c06debull,
0x1506957451f88cf8ull,
0x1508be1755a62a4dull,
0x150e507ab4c85ca4ull,
0x150e77df6b73db39ull,
0x150f47f14227c320ull,
0x1510d41c3bd9602aull,
0x1516205999be864dull,
0x15166a574bfed19cull,
0x1516d976273c0f30ull,
0x15201ad7185631f7ull,
0x15226e479f0e8746ull,
0x1522c12170b90aaaull,
0x1525d2b9f7b28039ull,
0x152a7c85d8271a25ull,
0x1536f7bc80389862ull,
0x15393d06119cb360ull,
0x154895873aaed16dull,
0x154a2cad469116a8ull,
0x154e485ea49b65b5ull,
0x154e8f4f1952370eull,
0x155278394b37b522ull,
0x1555e6b35ef4a3e2ull,
0x155fe7b0b04a4f41ull,
0x1561137a3add9e2eull,
0x1562ab322797f701ull,
0x156f21581413b6cdull,
0x1575f23fffda59f3ull,
0x1580f35724e95d0full,
0x1587db016f1ab0e5ull,
0x159d587b84ec0634ull,
0x15aa7bc68aef7f50ull,
0x15abc5ef99d8c095ull,
0x15ad5bf3fbdda462ull,
0x15afb12f8fe5ae68ull,
0x15b1c0ec14f348ebull,
0x15b2135db2fba160ull,
0x15b2149ca0258866ull,
0x15b26a4c33a45d92ull,
0x15b85606f4a2c607ull,
0x15bdf2065dbba8feull,
0x15bf9895c3551588ull,
0x15d6b479b4de2bf4ull,
0x15d9810d25d5b8d2ull,
0x15de4e1928af2e5bull,
0x15f327eae16d2bdeull,
0x15faf612fc996206ull,
0x160abb32df7d61e9ull,
0x1617b4545a3cf94cull,
0x161e0a24408296bcull,
0x161f5427ac9626ebull,
0x16260e600322392bull,
0x1626529934e2ee89ull,
0x16297b616f58ba97ull,
0x162abbd1761451aaull,
0x162c320d90dc033cull,
0x162d2fe6a751bf06ull,
0x162f20f1d1c49ae1ull,
0x163ad0d21110b46cull,
0x163ddfdb76f3c090ull,
0x163ee1b5209db890ull,
0x1649b9ece3bb9bd1ull,
0x164aefa17ddfb0e0ull,
0x165388d104a1b3faull,
0x165b4c8e0efae1afull,
0x165d9bd407a7aea7ull,
0x16620f9a76e26967ull,
0x1670cfd4523db1e1ull,
0x167af0e44f76cc35ull,
0x167c3009e5aaf211ull,
0x167ee5978f0c15ecull,
0x16801e485bf87ba0ull,
0x1684de2cc4988b71ull,
0x1687ebb9d828fcceull,
0x168959ce7ca7c83eull,
0x168ce7c699164641ull,
0x1695faf9158bcd43ull,
0x169986a7e636045full,
0x169f91080a27e14cull,
0x16a0c958345df1c0ull,
0x16a525835fc02dbfull,
0x16a9408011403f5eull,
0x16ad1ed60a9d5035ull,
0x16ad279c9a45272aull,
0x16b4e949e8e0968bull,
0x16b8e70b1f757c59ull,
0x16bc3e4187377da8ull,
0x16bc5a185d2a5050ull,
0x16c1a409d2b1c95eull,
0x16c6d104d97f34dbull,
0x16ca3a89393d5e4eull,
0x16cace14167dcec7ull,
0x16d1e44d89004392ull,
0x16d477861c1e0074ull,
0x16d586ed9a9fe5e2ull,
0x16d58c3aca136db6ull,
0x16dcff1e48854b69ull,
0x16e20caa3f7b046cull,
0x16e36715064482d4ull,
0x16e46e6730633b70ull,
0x16e6eb1b1d173532ull,
0x16e9bddd8cee7822ull,
0x16ecb6f180b665ffull,
0x16edf2102e2e9969ull,
0x16f4b511b3cd377aull,
0x16f6bb7629651bf3ull,
0x16f93f32a480ac72ull,
0x17067e1e19bb3487ull,
0x1707592dffb666caull,
0x170febb890f414e3ull,
0x171c533c1ed7e45full,
0x172005c2d760f6c6ull,
0x172968432bcb57f0ull,
0x172b608dfdc8fd61ull,
0x172bd292678560dbull,
0x173128f5f58303c8ull,
0x1735197f2758561eull,
0x1737f6c22a19bc0dull,
0x173a4f68d1087a15ull,
0x173b6ae7bdf2b3d6ull,
0x173bac0bd98439f0ull,
0x1741d0f84de445d0ull,
0x1745da61b459801full,
0x174e512c6d8dbde5ull,
0x1759a43e6de7eb13ull,
0x175f9d6166128aafull,
0x176ce30e44ef935full,
0x177136cfad3e6e85ull,
0x1773abc60a499f4dull,
0x177becd574433bc1ull,
0x177ca790fa97b3aeull,
0x1786e58b0da8ca9aull,
0x1789f4280534575full,
0x178b990f2a9d3fd2ull,
0x17917520c04c8d1bull,
0x1797f861d10685b1ull,
0x179812c1dcf702ddull,
0x17990848495c28bbull,
0x179b69a1fc7d02f8ull,
0x179c2f74d408971eull,
0x179d919036d9f4e4ull,
0x17a01ad1371e6529ull,
0x17b23c67e8cf93a7ull,
0x17b5be8814f955d0ull,
0x17b5f97a6ef23bb3ull,
0x17b94153bca78799ull,
0x17ba465cfe47649eull,
0x17ba812642ee375dull,
0x17ba93a4fb077e04ull,
0x17bc97b1d8a176b8ull,
0x17d1b55a3e794770ull,
0x17d241705196da7bull,
0x17db13d88d277a6aull,
0x17dc43c2a2e41f3eull,
0x17df70f1f381453eull,
0x17dfa28d99d1978cull,
0x17e3b20da6dc2c33ull,
0x17eea7bd79ea0c96ull,
0x17ef4b91dc0c5760ull,
0x17f1e36f85becf5aull,
0x17f5319d013922b0ull,
0x17f6515a814a520bull,
0x17f6b6ab2b0e8764ull,
0x17f6edaf62eb68f9ull,
0x17fa430761c9da92ull,
0x17fbd7d619ff9946ull,
0x17fec9827aa23b09ull,
0x18023f53f9bf4fcaull,
0x180324dd09a15d6full,
0x18081ed5172de50cull,
0x18163cf69585016aull,
0x18165ce28868184eull,
0x1819af888f71222bull,
0x181df84fb3011049ull,
0x181f0bdfbefb4151ull,
0x1828bd84de8ae672ull,
0x182defeac20ecd44ull,
0x18324f2d0e7f4a32ull,
0x18334bcc41b9eaf9ull,
0x1835a8b710c10573ull,
0x1836270fafe639f6ull,
0x184c01dd44291c15ull,
0x1854dfe4982fda67ull,
0x185651412a82c2bbull,
0x1859fd4f8479e0ddull,
0x185a260c5b7c4af7ull,
0x185def17466df6ddull,
0x185e017dd94323f4ull,
0x1861e133607d75bdull,
0x1862a872cd712ee7ull,
0x1862d2aaa4d8e967ull,
0x18633c7288f01089ull,
0x18694125a0b50bffull,
0x186d4b689e9bb9ebull,
0x1878e90db35a7e5bull,
0x187eae082e6bd571ull,
0x1886b4cf3b7bc4f2ull,
0x188c9fb8ead9856full,
0x188f0f0f5fd492c5ull,
0x188f8d6c9eb3876cull,
0x188ff16aafff7924ull,
0x1895c1e5acb5cc43ull,
0x189fe0762af7aa25ull,
0x18a42e8c1437c995ull,
0x18a4a4a25ca8c29eull,
0x18a9c0878c87fa1dull,
0x18ac448806d5683bull,
0x18b0633f2da529edull,
0x18b161d29e5bd509ull,
0x18b384a947a24612ull,
0x18b42a14943bd153ull,
0x18b4a892c5128e83ull,
0x18b581a596142818ull,
0x18b9c21a7072d134ull,
0x18ba59f89511a2bbull,
0x18bb3eee0f6aa6bfull,
0x18c4aa7e4e5a32d3ull,
0x18e1d36f24af6dc2ull,
0x18e7ade307601db0ull,
0x18edab51dd08b825ull,
0x18ede5479efe86e4ull,
0x18eef77277616751ull,
0x18ef3e864dffd279ull,
0x18f2f85009508022ull,
0x18f5db0f6d7ec1c4ull,
0x18fc3d23a80904d5ull,
0x18fdcc543f6b329cull,
0x1903b5771dbce797ull,
0x1904be95977c69e1ull,
0x1908877e0722c746ull,
0x1911ee1707ecc53aull,
0x1916cd55df26f0ffull,
0x1920a969461b29c0ull,
0x1927e8a7aa3c04daull,
0x192f43e8d22d2a94ull,
0x1930b59694de1af5ull,
0x19358202d3f0a975ull,
0x19424d17ae32b067ull,
0x1943bc9b793e2e42ull,
0x19484c9481bebedeull,
0x1948e21cf532bbd1ull,
0x194c2db56ab7dde5ull,
0x195080aa5ec31f08ull,
0x19522b8843ebed7cull,
0x19548537caa34054ull,
0x1955305315d71a58ull,
0x1964e80a663c6ccdull,
0x1968e6463abc9bb9ull,
0x196a6f5f4f9878eeull,
0x196c616a09469850ull,
0x197042699cb75b6eull,
0x1975b12aa284c46eull,
0x197f1d66d1981a59ull,
0x197fbb82e49cbc4full,
0x1988c427adfc9fa4ull,
0x19907381bbb73d67ull,
0x1990b8e1d2e1b786ull,
0x19995bc0766936bcull,
0x19a83c477ba5a2f3ull,
0x19ad59d6a677e770ull,
0x19b7f226fea8555aull,
0x19c281b70177d69cull,
0x19c37bb7379621a8ull,
0x19c9f720c9ab8087ull,
0x19cc5128099c92a8ull,
0x19cccb8716fbe733ull,
0x19cd1d2e3d7df498ull,
0x19d237fbf2f1c5adull,
0x19d645a2c5662125ull,
0x19d8300016432e17ull,
0x19d8f9c9e23c1e14ull,
0x19d942859e2363beull,
0x19e05ebfcd05eb50ull,
0x19e40ad2960b5baaull,
0x19e4418ab7218b15ull,
0x19e80ccfa2ad0e5aull,
0x19eb0692a5ea56b1ull,
0x19f73306ec5b5f00ull,
0x19facfc76cfe1c48ull,
0x19fadc196fa3ff00ull,
0x1a041403700ed019ull,
0x1a0c0113d4c539e8ull,
0x1a0c4e0596c3ca9eull,
0x1a0cb63391b203c5ull,
0x1a1533789899387full,
0x1a1d1107eb4cf46aull,
0x1a1e6ca0e659e610ull,
0x1a2254d4739dc0e6ull,
0x1a252cc44b0adcc5ull,
0x1a28cc5a9265a97cull,
0x1a28d3c0401cb520ull,
0x1a2a6739b9a3e740ull,
0x1a34e4cba39af7cbull,
0x1a3c92da7f553db2ull,
0x1a3e3b3f16f19cf7ull,
0x1a4101b1ff2aa9a3ull,
0x1a411a86bfe3eae0ull,
0x1a43d56b27518461ull,
0x1a498d1943820809ull,
0x1a4a0a7e76a47cb8ull,
0x1a4b28b052caf97eull,
0x1a4ca250e9fc7becull,
0x1a4f8b3e09bdb856ull,
0x1a582c58a1d1ed82ull,
0x1a5be80a97d7a843ull,
0x1a5cc84f8f8cb78full,
0x1a62df38eb9cb097ull,
0x1a6950acd1cce610ull,
0x1a69f592dbe433faull,
0x1a6a2154d2218b67ull,
0x1a71f637d965c0ebull,
0x1a72283af1fe09f6ull,
0x1a72b978504136eeull,
0x1a78fe22148de28full,
0x1a7ab8d2865a8199ull,
0x1a8558f822ae0530ull,
0x1a85968188511a4aull,
0x1a88282a2c336e3full,
0x1a8892937733bdfdull,
0x1a96c1a553506d52ull,
0x1a9c573dac1790f9ull,
0x1a9e2a67cce0719eull,
0x1aa0539412cdfb9eull,
0x1aa643e92f4d8e39ull,
0x1aaf4c8b45c906ebull,
0x1ab342502c80af21ull,
0x1abcceea2f7084b8ull,
0x1abf39d82c682f9dull,
0x1ac1b075d390dcd6ull,
0x1ac1d0c5f01bd1c2ull,
0x1ac4b886fd06bce7ull,
0x1ac6e66bc90aa961ull,
0x1acc13434389e954ull,
0x1ad39fe23a87f25aull,
0x1ad6cb7314248db9ull,
0x1ade984948c40efcull,
0x1ae9498cb7c874dcull,
0x1aea7b54791e5797ull,
0x1af0203ec8b4570aull,
0x1b025c6866bb0116ull,
0x1b03ec97d39149a4ull,
0x1b0f8f57ea2e0a32ull,
0x1b1608849ca069f1ull,
0x1b160a51a9b854b6ull,
0x1b18831de88e4edaull,
0x1b1d6280cf5beb16ull,
0x1b1d7e441b842a84ull,
0x1b211147dea9fd9full,
0x1b224c6107393e87ull,
0x1b278659379f1d5full,
0x1b294286e7cd9ac0ull,
0x1b300ecf0d80613dull,
0x1b32a505d1c9b829ull,
0x1b33a8408b3ac5c0ull,
0x1b358ecfb121a189ull,
0x1b35e912592cbcfdull,
0x1b3869bb98016ee4ull,
0x1b3a6d26f073df47ull,
0x1b3dbc3b7bd53f05ull,
0x1b3fbe55397d4f07ull,
0x1b4079b5cfd3ae6aull,
0x1b44c4b14766bd6dull,
0x1b459b1a04b0bdd5ull,
0x1b47c1d64c216a8dull,
0x1b4c01f79b713aa8ull,
0x1b516fad9c5d0b51ull,
0x1b53d1f8fcf3cc4bull,
0x1b577bd9090603e3ull,
0x1b5cdbac423b2744ull,
0x1b5d4e52943c4062ull,
0x1b67d579939faa4full,
0x1b6828eb9d1bff48ull,
0x1b696d51a483dc5dull,
0x1b69adeea8007312ull,
0x1b7c4024397f9a61ull,
0x1b8802a82c4cfbc6ull,
0x1b9610a6c875cb8aull,
0x1b9f39d14ccf470bull,
0x1ba5a57ee9b40354ull,
0x1ba9c22b2aa66c11ull,
0x1bc376365ea83265ull,
0x1bc408b7187a7834ull,
0x1bc74fa14dbc091full,
0x1bc9582e0f8cafacull,
0x1bc9663b7078ae0full,
0x1bce1a06da0cc0cfull,
0x1bcfb48dd14020d1ull,
0x1bdba1723f2ac4b5ull,
0x1bde6baaea607c62ull,
0x1be27e4d6cefbfc8ull,
0x1be3849c48982bb7ull,
0x1be5311d2aab5defull,
0x1beff466938348beull,
0x1bf2ede9f0f66cbdull,
0x1bf64b997c8e44eeull,
0x1bf9cc4c1f208c9bull,
0x1c07e2d52c52bce6ull,
0x1c08acf724cd18feull,
0x1c08eef180166f40ull,
0x1c0a9a1b4f8cbd93ull,
0x1c0beee649187f57ull,
0x1c1104cb36312332ull,
0x1c129af43a78dfc1ull,
0x1c156189286500a3ull,
0x1c1d17f428045e52ull,
0x1c279ea60d4dccafull,
0x1c29cb239cdd6e08ull,
0x1c37ae9f70d3a269ull,
0x1c447017b32b9bd2ull,
0x1c47e0a1796464f2ull,
0x1c4ba83da1855dcfull,
0x1c4fe90aaf4bc90full,
0x1c50286d76647cf2ull,
0x1c5031c0f4918439ull,
0x1c5782f280067656ull,
0x1c59ea6744d8cb62ull,
0x1c619de7c23ec88dull,
0x1c6229bbddbfe131ull,
0x1c6395bb683fc18dull,
0x1c664178d5454288ull,
0x1c710d8779b1fb4aull,
0x1c74486148c1ffb1ull,
0x1c77356be593a4caull,
0x1c77a87ecd794571ull,
0x1c780f50cf057b17ull,
0x1c7b0c88484e9f24ull,
0x1c7bd1125cf88bd5ull,
0x1c7c903f9e27c660ull,
0x1c833e3139cbb02cull,
0x1c85e69a2f4c4eabull,
0x1c864f9ec3a62f93ull,
0x1c9c0c8401337e5full,
0x1c9fb03febcb16b9ull,
0x1ca54b38230e6d90ull,
0x1ca9cb3b500292f4ull,
0x1cc25437539dd898ull,
0x1ccffb2b20c9c80aull,
0x1cd0b9a76120329cull,
0x1cd0eaeb41e7c713ull,
0x1cd3cc9cb4b8123bull,
0x1ce0518aeb5a60faull,
0x1ce23e82bb507d2cull,
0x1ce3e61a282279c6ull,
0x1ce604750261cf8cull,
0x1ced1db4f2f7bb8aull,
0x1cf4c9495dc6ea80ull,
0x1cfc65f07d94904eull,
0x1cfe7f2ee9da8bcaull,
0x1d01d232d8ec2583ull,
0x1d10c4cf21856d50ull,
0x1d20d57173d015c5ull,
0x1d2155398a0e253cull,
0x1d231b6f1bb96ac5ull,
0x1d263a8bd8dc71beull,
0x1d29470d625b32e7ull,
0x1d2ef58a16cbb676ull,
0x1d3020c42a684081ull,
0x1d36a229d3e9d6d2ull,
0x1d38b25fdb56b6aaull,
0x1d3fb8793bc4fd0bull,
0x1d43e3f3a77942c3ull,
0x1d440055cda2b771ull,
0x1d4791b8f9cb9c7aull,
0x1d49adeaead754d0ull,
0x1d4a5c3dfff822e8ull,
0x1d4ad280f791e10bull,
0x1d5258d6cffb12efull,
0x1d567c38a165bd0eull,
0x1d574bb3e52c4c81ull,
0x1d59892dfb1c0d6dull,
0x1d5c4a5f6f9ecfc0ull,
0x1d5f65020bebc2edull,
0x1d5fdf3e60239b15ull,
0x1d61aa1621ccb7f4ull,
0x1d7314c57d671f78ull,
0x1d8041a2cc735ad6ull,
0x1d86330dd21abccdull,
0x1d89d829db6db7d9ull,
0x1d8f9e857c57c80cull,
0x1d905d3480205f9cull,
0x1d922a5f41c06af4ull,
0x1d94679e5f072a99ull,
0x1d982c6b4808b6f0ull,
0x1d995290f4505fbcull,
0x1d9fded59c7e4140ull,
0x1da0f50829ae905full,
0x1da1b64d01ea9b4cull,
0x1da2396e0caab639ull,
0x1da72c27ef7005c0ull,
0x1dada1535dbb2266ull,
0x1db2b72b00f26de3ull,
0x1db47a5ca8416a96ull,
0x1db6a54e749ac4a5ull,
0x1db95cc5bb2fe3dfull,
0x1dbc76b91cf97be3ull,
0x1dc2202eaa509c4bull,
0x1dc4603279fb575eull,
0x1dc5349b8b909588ull,
0x1dc8a731d1892ac3ull,
0x1dd0c0250588d1a9ull,
0x1dd33b5a22878b52ull,
0x1dd8c143b438bf00ull,
0x1dd8c9ac5bf53751ull,
0x1dde88a129d10ffdull,
0x1ddfbecbd8512949ull,
0x1dea093ca689c7d5ull,
0x1df79319912aca44ull,
0x1df9b695a10da71eull,
0x1dfa68ab6d5bce15ull,
0x1e0432941d658446ull,
0x1e08d35acebbbec3ull,
0x1e0b93cd5cae971bull,
0x1e16ba66df033b81ull,
0x1e204eb2804d051cull,
0x1e292cfc517f157eull,
0x1e2ecbf7204a2336ull,
0x1e2f6661f1cd236full,
0x1e331a1f82a12852ull,
0x1e34d7bde0fe4954ull,
0x1e34f318f6a79d64ull,
0x1e3c298b9efd3e04ull,
0x1e3c6f0ff4547167ull,
0x1e4104cca3db0af2ull,
0x1e437591f5fb8612ull,
0x1e52bbaf8930d34dull,
0x1e559f05b3245d7dull,
0x1e5bb22f36d5695cull,
0x1e603842becb3ca7ull,
0x1e6081e648a469b4ull,
0x1e62d95b6766fe5full,
0x1e6977d6f3108667ull,
0x1e6bef9f3e4a7348ull,
0x1e6ddc2883793442ull,
0x1e72e182942715aaull,
0x1e797cf0169c8447ull,
0x1e87ffb408f24d45ull,
0x1e8894b61e29f23full,
0x1e90a9b9d42ae9abull,
0x1e90f4de66bc1ccdull,
0x1e93e5a2676525b9ull,
0x1e95d4abf3659459ull,
0x1e9782a0359d5f69ull,
0x1e99d7a45f548da4ull,
0x1ea0edd895a5b85aull,
0x1ea8a9111234b2b6ull,
0x1eac06c30634ca2cull,
0x1eb9a439bc8a90f3ull,
0x1ec6007f2ebd6cfaull,
0x1ec8d25d99a52addull,
0x1ecd95c69ee44ccdull,
0x1ed1533cfaa4cbf5ull,
0x1ed8849d140cdb2cull,
0x1edb4f160d9efdb7ull,
0x1ee411ccc7084485ull,
0x1eeab6a58ecc12f7ull,
0x1eeabe0af12b50c5ull,
0x1eed2cb8dc657b1eull,
0x1ef0cbedacc7f5c4ull,
0x1ef46c1096973ea5ull,
0x1ef6d49be886cf33ull,
0x1efd22ac116a1cf7ull,
0x1f0098eae4aa227aull,
0x1f01b6f69784eab9ull,
0x1f06c07b76746773ull,
0x1f0a9f8011c5e8e7ull,
0x1f0aeda6151bfd09ull,
0x1f0cc82a5c111a92ull,
0x1f0ee5d4b619a0bbull,
0x1f26d2dc3aafdcfdull,
0x1f27d54a35bed690ull,
0x1f3443f9236e15a7ull,
0x1f4dd9ff5f413660ull,
0x1f5067a43c3101f7ull,
0x1f5c33bc13eb9f00ull,
0x1f5e3226bbfd6d7full,
0x1f6c1b9049e9ec5full,
0x1f6c30fb6a7d7354ull,
0x1f6fce49a6cd8e33ull,
0x1f71b6accc317852ull,
0x1f71be09473c3f67ull,
0x1f77008516b75bc7ull,
0x1f83573329a42201ull,
0x1f848cf0a0ab63e2ull,
0x1f878c010ccdcb1bull,
0x1f87f10369d15244ull,
0x1f8c0d5e650c8060ull,
0x1f902e1bd55af3e7ull,
0x1f9d2b1a558da746ull,
0x1fa6d7ad10b222bdull,
0x1fb2ec6c0fa35cdeull,
0x1fb56a287b4da018ull,
0x1fc735b5b1602697ull,
0x1fc9dc773ec76be0ull,
0x1fca1f01d6b5c549ull,
0x1fcb0024deaf136full,
0x1fd40456149054a6ull,
0x1fdf415a705bb9cdull,
0x1fe3da60a57f8a02ull,
0x1fe55fd123e430daull,
0x1fe790279f548cfaull,
0x1ff399a35ae00787ull,
0x1ffada31de601d60ull,
0x200248d2bb0a7b77ull,
0x200f18c8412c51c5ull,
0x200fc7d2b7a204a6ull,
0x2018a490a7843e74ull,
0x2026fee6a16e3a36ull,
0x2027f05f09213f41ull,
0x2029d135cfdbbf92ull,
0x202be0160f9897a8ull,
0x202c118b40106046ull,
0x202d179876763022ull,
0x203cd0e5ebba3f5eull,
0x2040b8e4b381d1f0ull,
0x20447aff773d8623ull,
0x20450d8b33fbdd87ull,
0x20451115a963cb30ull,
0x204b2988bd06624aull,
0x204b2ec646c0bb1dull,
0x204b30338bb34378ull,
0x2050090c7cdedd96ull,
0x20522b4f6da3a23dull,
0x205234937633362dull,
0x2052edc1c54e8532ull,
0x205505788b93185cull,
0x2055aeeec1000c27ull,
0x205f86e850bcab68ull,
0x2064f66981c5e2fcull,
0x2069404696a12a64ull,
0x2069fe663ea11496ull,
0x207106b7fcd41aaeull,
0x20728f71de2d64d6ull,
0x207b38419bb1e052ull,
0x2083254d433a45b8ull,
0x2093eccc0e8f1ee1ull,
0x20960ab56a21b30cull,
0x2097fbfda03dd5b6ull,
0x209d8f0b461be85cull,
0x20a06f2daf815befull,
0x20a2613f7d58af26ull,
0x20a34fb8f8209b96ull,
0x20a3c93caf8312bcull,
0x20a4ef0ef31a49aaull,
0x20be0579139dcb65ull,
0x20c16df3d3670b57ull,
0x20c54f9da5ed0db7ull,
0x20c89d799c5a058eull,
0x20cf04573d98da67ull,
0x20cf743b482783fcull,
0x20d01f90ec06d3ddull,
0x20d045861e0db902ull,
0x20d5011f8ec12af6ull,
0x20d5018c1bdd0b59ull,
0x20dba7fb987cb6d1ull,
0x20ddfbcc3ff56cd2ull,
0x20de8a777eb46d04ull,
0x20e2ee47fbf45705ull,
0x20e35da3239a7f02ull,
0x20edfaba4c25da8aull,
0x21005a17f7a56a6cull,
0x2100cec1a6aef1a6ull,
0x21040a4173502ac8ull,
0x2109a3a2b43a4c35ull,
0x210d5e16ca485080ull,
0x21153f29374ac630ull,
0x211a0c6a21b40d76ull,
0x211a94c94d8c1996ull,
0x2123f2da507ff9c0ull,
0x2124db086df17c68ull,
0x2131e532b8b5f9c2ull,
0x2132b5aa636fb143ull,
0x2136d6b011c9fd5full,
0x21387ac04159b39eull,
0x2139697a497dac47ull,
0x21398c2501c0cfabull,
0x213a9c27677284e0ull,
0x213ad014b186b99eull,
0x214324dae0c96e88ull,
0x2151e4763578900dull,
0x215e14704cfbef9dull,
0x2161850eb9a92bc7ull,
0x216402ce898fac7full,
0x216b7165e9fa58ddull,
0x216d77b57aa93f70ull,
0x216e1a0b867bcebfull,
0x217b3e0b7df29e14ull,
0x21811ff54a86090cull,
0x21869dd8739d049full,
0x2188681d30147b04ull,
0x21890cc017c417bbull,
0x218d37aac093e0d2ull,
0x218ea4cdc3a54b3full,
0x218f352c696461d3ull,
0x21932164b2774f98ull,
0x2193fbb8afe547e3ull,
0x21a0fecbcf33ba30ull,
0x21a2218c53150111ull,
0x21a2da72cd959e0full,
0x21a7fc1e10024aa0ull,
0x21af484a349093e2ull,
0x21b77313deea4012ull,
0x21bb3f031706aef9ull,
0x21bbfa7f9f3903b1ull,
0x21c290d401300353ull,
0x21c89e54d32c5ff9ull,
0x21cb05b7eb1150a2ull,
0x21ce2cf46dc70b0eull,
0x21d2b2d6b4c7e7fdull,
0x21d4e69203000915ull,
0x21d89d411423014cull,
0x21dce66d2a25c5b8ull,
0x21dd0416e69e0590ull,
0x21e34fb5b1c81265ull,
0x21e54b2697477069ull,
0x21e61b487efbd1a4ull,
0x21e81a11132a7f5bull,
0x21ec3f4c82ba406cull,
0x21ed19af23347ad5ull,
0x21efc5c14f2b51a3ull,
0x21f97ff5ced3347eull,
0x21fa81892257cd86ull,
0x21feb29c2f55a535ull,
0x22048705b453320dull,
0x220fa60db057ff24ull,
0x220fec9e0359e324ull,
0x22100d056431ac0eull,
0x2210f207bb5122d0ull,
0x22111a6dd5f12012ull,
0x2215e45ea742ebafull,
0x22168e103f2d1342ull,
0x2218603088afc2c9ull,
0x221891f1558b4a45ull,
0x22261f5e1bed1dc6ull,
0x222671b6d134abedull,
0x223d9a854e1da9fbull,
0x223e3fa9e9291563ull,
0x223f087433267ab2ull,
0x2240ca7d759ca82bull,
0x22419c209ebf06e5ull,
0x224b2886d1c4ff29ull,
0x2250f6465a587924ull,
0x225184b1011db127ull,
0x225e70a8d3d4a03bull,
0x2260575a14dba68aull,
0x226bfbadb4175ec6ull,
0x226cc84f6776882full,
0x2271675fcc142d4cull,
0x227178b10ac86bfeull,
0x2287437fe80330c8ull,
0x22893d11a32b5416ull,
0x228b4689475f8b85ull,
0x228ba0c3bddab49bull,
0x228ce2c844e8c6d2ull,
0x228e764958061863ull,
0x2293b7325a811ab0ull,
0x229468ee0e7349c5ull,
0x229accb1169b7951ull,
0x22a3163ef6f6704bull,
0x22a4e77dca9f75bbull,
0x22aa6b5309d18ea9ull,
0x22adb8046cf31266ull,
0x22b00da7a3e15047ull,
0x22b1f9c9c6a70a9bull,
0x22b5d72d6603d9a5ull,
0x22bd5de8e9548ba0ull,
0x22bfea581b6db04dull,
0x22c0e02739d85376ull,
0x22c479464e5567f9ull,
0x22c67aea34dd9d60ull,
0x22c6f332e9e2c0c2ull,
0x22cc79ae4683ab2cull,
0x22ced5d1afae961eull,
0x22d1ab227ca50477ull,
0x22d79b285a4a8edfull,
0x22dd2feb42e4f174ull,
0x22dd3e30fa8d9062ull,
0x22ec8bcef7013d99ull,
0x22eca5679fbef8aaull,
0x22f0f0350c4ccb23ull,
0x22f1a8fa11e7724cull,
0x23027b9f10389386ull,
0x2302aec2c12e6d84ull,
0x2312a9184c9dc196ull,
0x231653e493a7319dull,
0x231ef08806b6c7fcull,
0x231fbd973632e25aull,
0x2326857c0e4a0d89ull,
0x232ba87227d3e1d7ull,
0x232c9589d6d6a0e7ull,
0x233ae35302d76e5cull,
0x23452151c87619f8ull,
0x234a646f770610ffull,
0x234e7f7e03298bbeull,
0x23547b6976be12a8ull,
0x235d9a73a9e4486bull,
0x23607733ec036633ull,
0x23633ec624eeff05ull,
0x2367a7f4b00385abull,
0x2372493e36a63054ull,
0x2374a338649876bcull,
0x237727922e406be9ull,
0x237b2ee33020f4b9ull,
0x237c233b4b5972e6ull,
0x237e9a38bdf9a39full,
0x238ce21214c9b195ull,
0x2390d2e8567cbf34ull,
0x239429c2b9a1a9f5ull,
0x2398346fe4df3cf0ull,
0x239b4362f940985eull,
0x23a1c39cb794d85eull,
0x23aab8aaadad9fb0ull,
0x23ad41ef63cd7b88ull,
0x23c1d5ff83c55966ull,
0x23c28a5d9723ba58ull,
0x23ca64436de8a8f3ull,
0x23cde5b5be3ed2a8ull,
0x23d46acdec329e60ull,
0x23d648b6320fd8aeull,
0x23dded446eeb2fe6ull,
0x23de442422c0ed2eull,
0x23dee45b6ea1739eull,
0x23e81b5008640eeeull,
0x23eccd50ab2d2bd6ull,
0x23ed802109f357f9ull,
0x23f0a6bcd816ea60ull,
0x23f4c20e4af9ac03ull,
0x23f54b4009484770ull,
0x23f9d6e96dffc29eull,
0x23fe8c9055a77609ull,
0x2401ab7072f0c52full,
0x240494328b8a55e0ull,
0x240982deb04022b9ull,
0x240ba018788d7bcbull,
0x240c9f9331231154ull,
0x241ab12947ca5489ull,
0x2421c00d1590c7d3ull,
0x2421c82cc6dc006dull,
0x2429b61a3f3ac8ccull,
0x242e61d45ea774cfull,
0x242f21c5b91c278eull,
0x2430174b207cd3a4ull,
0x2439315a293776a5ull,
0x2441d5b2a6026811ull,
0x24439a96a209c9d6ull,
0x24473c59904b6997ull,
0x244cb31e7e9307f1ull,
0x244ea5e5c8061522ull,
0x2450bf48f79c3df0ull,
0x245232d4bc7503bdull,
0x245683e22cf9afc0ull,
0x2457ce091d199c12ull,
0x245e7c0cf54f700dull,
0x24665ab098fc7c18ull,
0x2467b2c688407980ull,
0x24690e7a0297f206ull,
0x2472babc8afbae58ull,
0x247564b6d61325d4ull,
0x247bc10abdf00d55ull,
0x2483b6b9de45a1b1ull,
0x249d87a1db0ce34dull,
0x249e3f34215fd89eull,
0x249e9aa07856b04aull,
0x249f7e5b3c512696ull,
0x24a3a304cf0c3c24ull,
0x24a56b6d7ed58c7aull,
0x24ac99719b4876ffull,
0x24b2b28477fd3c31ull,
0x24b984bf7790c5a0ull,
0x24c0e2a7c91e776aull,
0x24c313afa7ab0266ull,
0x24c9135cd28ce2e6ull,
0x24dc5203caa770a2ull,
0x24e111f0883fe5c3ull,
0x24e75dbe84b1bcdfull,
0x24e97f065eea9235ull,
0x24eb6bb457a6d4e4ull,
0x24f031238f38fa3eull,
0x24f06b67a28ce886ull,
0x24f09522e036928bull,
0x24f0f4d133173510ull,
0x24f4196a99a6880full,
0x24f60e1ce81ee7daull,
0x24f654953266e0f0ull,
0x25038103e5bdb78eull,
0x25095bf3ced446d1ull,
0x250afeb9df2261acull,
0x252268e7952c4cbdull,
0x252b16d90513ae67ull,
0x25301504349c27edull,
0x2538b09c49763c9aull,
0x2538e4b6ae23b3f7ull,
0x253b81396e211eb6ull,
0x253beaf0cde03ca0ull,
0x254089e77555b57aull,
0x25433a153be007e8ull,
0x254561250d1d9adcull,
0x254aa49c17f4d50dull,
0x254c93203c026bdeull,
0x254d4cd21ea9200bull,
0x254d83e9d7d36f96ull,
0x2557dc6f4da13983ull,
0x25639b4a7c072e90ull,
0x257249db8342cd62ull,
0x2574428da55c185aull,
0x257892d600ce7afbull,
0x257d5f42bf0ed208ull,
0x257e2f199ca06359ull,
0x25814094dcf9f0c7ull,
0x2583ff18aca3b83full,
0x258984e058fef408ull,
0x259336c1b8aebf27ull,
0x2596de7a07010ae6ull,
0x2598ed8d6bfddf79ull,
0x259b3cbc1913e7c5ull,
0x25a5f9d3cfd4a18dull,
0x25a6cfa0a652f192ull,
0x25a843fdcc2f8d15ull,
0x25a965015836ac22ull,
0x25b223ca74e3def1ull,
0x25b7a8c5c4125c60ull,
0x25bc9200a43aa067ull,
0x25c09e2edaa10bdfull,
0x25c2701ee4806f62ull,
0x25c5e1be4f0921a8ull,
0x25c832ac88be7818ull,
0x25d097b2a1e6916dull,
0x25d0b739960f41f7ull,
0x25d261e08c06188aull,
0x25dc9e58853831c5ull,
0x25de62b5e39e0e9full,
0x25e146e437f02992ull,
0x25e625593a8eac46ull,
0x25ec23554f0c909cull,
0x25eefe995dfd3a6full,
0x25f58d8204a8d598ull,
0x25f667bdb94e259full,
0x25ff2c1a7669d6afull,
0x260f66abdf86c8c2ull,
0x26159c764db026cfull,
0x2618e66148f46659ull,
0x261f8adfba4cbc21ull,
0x2626ff18f2bc9789ull,
0x262fac93099857feull,
0x262fd39923aacde1ull,
0x2631dc817739fd28ull,
0x2633fe9d8e935891ull,
0x263519362fc8eb6dull,
0x263b3e99f92b545eull,
0x263d0ed4b3388a4aull,
0x264242c980798bd0ull,
0x264d8e1aef75a397ull,
0x265119fcd0935e2aull,
0x265bbfca3bb77e99ull,
0x265d19672de0eee4ull,
0x265d7085cffe00abull,
0x2665f3c21682c43cull,
0x26676a138adbe4ebull,
0x26686cd77d3dcfbcull,
0x2673857ee2d6127bull,
0x2673f03411b912ebull,
0x26748dc7a81b3858ull,
0x267685d0338cc4c0ull,
0x26989a99c0640426ull,
0x2698a7ea5a37c8e0ull,
0x269f73c47735b9ccull,
0x26a3897ccb87f3eeull,
0x26a4ac2310481a58ull,
0x26af38e61441014dull,
0x26b11e74ebb50f0eull,
0x26b5d0f31fb09e47ull,
0x26b84a0ed1aacd1dull,
0x26b8e5b09ceed935ull,
0x26c57d3b966b6935ull,
0x26c686a504c2dc79ull,
0x26cf031ecc294c8bull,
0x26d1819d0d2551aaull,
0x26d7515d0c57d3beull,
0x26dde50c611c77e8ull,
0x26de629860868506ull,
0x26e0959e0a726b2aull,
0x26e2fb38aaef65afull,
0x26e665fb511f9ac9ull,
0x26ebfedcd6b972beull,
0x26eed7e2e76a24e5ull,
0x26f494b8b6953ca7ull,
0x26f59a0b6ae0df94ull,
0x26f974d76df9a082ull,
0x2700f6ac904cab02ull,
0x27024fe10dd50386ull,
0x270da877449b2416ull,
0x27139a54a76d8962ull,
0x271409083458ba71ull,
0x27166fc9a2f5dea1ull,
0x271b7c36473cd925ull,
0x27256e2613e6ce10ull,
0x2727d823b9708b8cull,
0x272e5ee682d711f3ull,
0x272e822eb7808f7cull,
0x272fd0dd1e6be473ull,
0x273c81c0a4a8b941ull,
0x273cc5ef00351166ull,
0x273dcc0a7266eefaull,
0x273fd0757a1753ccull,
0x2741d35a338a3962ull,
0x2742d6ad9655f88eull,
0x2749bda4f0920300ull,
0x274ebb7f59f13158ull,
0x2754d3d01d1ccbb1ull,
0x2757a07720552d2bull,
0x275bba1d44c7faf8ull,
0x2769a8fbe47a5c46ull,
0x2774c261b17906abull,
0x2779a25342816efcull,
0x277bb7e320643705ull,
0x277ec653d334042cull,
0x27812c29065819a3ull,
0x27870e0274661313ull,
0x278b91ddf285e423ull,
0x278deb32b0af01dfull,
0x2791a5d85cbe1804ull,
0x2797096944627aaaull,
0x2799f5e878e06774ull,
0x27a090954213ecdfull,
0x27a0c5f44e6db195ull,
0x27a290cfd87e2375ull,
0x27a818a87c3c292bull,
0x27a83b2b725e8b1full,
0x27aa8d0ade6146a4ull,
0x27ab212039a68066ull,
0x27bae4f8141fe795ull,
0x27bc24b4104a04a2ull,
0x27c48f683438f039ull,
0x27c59fbc8ebc75faull,
0x27d03efb20921a4aull,
0x27d3eafb2685eddbull,
0x27dca49cfddf0b0bull,
0x27dfecfdd313a209ull,
0x27e50ab18ca73be2ull,
0x27e5a69dd65280f4ull,
0x27e9cbfe774c04ddull,
0x27ed8e2db5b150b7ull,
0x27f8ee42b0911bd6ull,
0x27f95a1efff48b43ull,
0x27fd6c988fc3302cull,
0x28026fd2f09aab61ull,
0x280477f7a66bea14ull,
0x280977327654deeeull,
0x281427f206b77b8eull,
0x281715571bbbc623ull,
0x2820770bf254e0c8ull,
0x2824a6de885f08ebull,
0x28285a4e79de1689ull,
0x2829f33d82adeacbull,
0x282c343d5ff9909bull,
0x282c7f6e60150f42ull,
0x282e0dc3ab6b2ccfull,
0x2830dbb17e539217ull,
0x2834c37ee6810cc5ull,
0x2845432c73c86d4dull,
0x2847ffa1fde6e653ull,
0x28493144ffaeadc4ull,
0x284fa647dd648a56ull,
0x28577f592de99b0eull,
0x285863405de6a81aull,
0x28592cd9052d46cfull,
0x285dca9be9eb1c82ull,
0x28615e44ef33c4f9ull,
0x286946e3f75f5c12ull,
0x286a872577ff2514ull,
0x286bcbcc1a74c2c4ull,
0x2870b19870f0c4f9ull,
0x2874d15644181d77ull,
0x2876d753bc2eb09aull,
0x288204af6786f7e0ull,
0x2886345c0aef332bull,
0x2887672e61751a36ull,
0x2887783d13243d3dull,
0x288af42061ae55ddull,
0x288c07c9c157fbb5ull,
0x288eba5535b201dbull,
0x28945c3a4162c8c4ull,
0x2896dc8e7e675a33ull,
0x28978f6174778945ull,
0x28a4f96c6ac210aaull,
0x28a680e237dab6adull,
0x28af9acd87207b72ull,
0x28b6b7348b9959dbull,
0x28b7e91cecae7689ull,
0x28c2c5d426f8eb0dull,
0x28c41308fffe7474ull,
0x28cc880adfd6e67aull,
0x28ccfd330960fb9cull,
0x28d31c77b478ac00ull,
0x28dbbc38341ea255ull,
0x28e3924ff89a1c49ull,
0x28e469f2dbf666e6ull,
0x28ef12357717ea06ull,
0x28efdf5d5685c688ull,
0x28fde6049b0c1173ull,
0x2909969e9d5b7ff6ull,
0x2910edf641063a31ull,
0x291fad782ae93784ull,
0x2921279d45b54e27ull,
0x2924b7c959cf38e9ull,
0x29256d3b366a406cull,
0x2926d2eb0729fa74ull,
0x292f4d0fd686995bull,
0x292fa571a3a5c70aull,
0x2937b4fc5940cf5dull,
0x293f0104b027b9cfull,
0x29438b63bcfe047bull,
0x294940edbc5994ddull,
0x2957ff30937bb8b2ull,
0x2958394eea37bfe1ull,
0x295ed8f991428369ull,
0x2961c97b5599967aull,
0x296368687c06a8f4ull,
0x2970a54d111ba69eull,
0x2971778eebacaefaull,
0x2974d5840a6d7b1aull,
0x297ab61b46a53464ull,
0x298227d333987a79ull,
0x2985a3f30841195cull,
0x298a2e682d32fd93ull,
0x298b9e8c9d2ae1a1ull,
0x298daf8ca210ae40ull,
0x298f7d95213f8169ull,
0x29916ac18061deebull,
0x29a3c1a9eca435d7ull,
0x29a8ac45ab0b758dull,
0x29ac099e3546026aull,
0x29b204dadc13e75eull,
0x29b979c19aabc16full,
0x29ba6ec2027491c4ull,
0x29cd4436c1920abcull,
0x29cdf4bce86f2523ull,
0x29d7600154ff8fd2ull,
0x29d97dbd460cc4d1ull,
0x29de8be6697ff938ull,
0x29e52662b2a8b1cfull,
0x29ea6d1ab13b01aaull,
0x29f76fca55635623ull,
0x29f7aecbbb426ea0ull,
0x2a119af68f79ec2eull,
0x2a153cd2472b7879ull,
0x2a167f1ab68a7efdull,
0x2a1c406aaaff1ce0ull,
0x2a2699797c40d2ceull,
0x2a36ca6007174379ull,
0x2a3f06e5f0a61278ull,
0x2a425b4d1ec8e168ull,
0x2a4c3f8357fbf234ull,
0x2a51f5712ba70ebeull,
0x2a5c2c8460ea82beull,
0x2a60230c5f32ad7bull,
0x2a602f04fb6304efull,
0x2a68886c19a1e580ull,
0x2a6beb36ed5b7a5full,
0x2a7324e4f13a812aull,
0x2a75b2e0f6508cbaull,
0x2a7a50cdbf4a2012ull,
0x2ab63dc2211e6280ull,
0x2ab682b6bdd631c5ull,
0x2ab8588197bbc3e7ull,
0x2abe3676718aea43ull,
0x2abf6f609bfde738ull,
0x2ac1befb11e1e2e5ull,
0x2ad06bf7597f3c75ull,
0x2add25457ef0a19aull,
0x2adf6d1e4b17871full,
0x2ae7677f53c93591ull,
0x2aebbce9843282acull,
0x2afab860d9777612ull,
0x2aff3a8a3242e24full,
0x2b10d86d157d2f01ull,
0x2b17f07df19a9d73ull,
0x2b1fff95fad10578ull,
0x2b26303d79cdfb5full,
0x2b2a619ed21af113ull,
0x2b2c48bfdb980c75ull,
0x2b2e4f3f911874b0ull,
0x2b2f91ec5e8dbb82ull,
0x2b3705f9d9292c9aull,
0x2b3af0a0fe9a6865ull,
0x2b41b88a1e046617ull,
0x2b43ce0538c47f6dull,
0x2b4478a814f98edeull,
0x2b472a1dd7ede284ull,
0x2b479068a9645c85ull,
0x2b49335b723158f8ull,
0x2b4b5a84fc7d7159ull,
0x2b51a654f5e1690dull,
0x2b5806b64bfcd761ull,
0x2b59c9d85bcf12faull,
0x2b5b7c161a821816ull,
0x2b66c59cf09960bdull,
0x2b6e8ac5bc988839ull,
0x2b726b6cb1ab53f2ull,
0x2b741656c07d8e24ull,
0x2b76e7a818b0e3b9ull,
0x2b7994b5d61e13dfull,
0x2b7abe0ac743b4d8ull,
0x2b8da65d2d82bcd5ull,
0x2b8e7c5b13f1c595ull,
0x2b94abcf7abfe9e1ull,
0x2b9583187a08e978ull,
0x2b9b05a0c38410eeull,
0x2b9cd568deef5975ull,
0x2b9f9e31bcaf0e3full,
0x2ba1abe97de0d514ull,
0x2ba70063ee55a5faull,
0x2ba8054efa9f027aull,
0x2baa825d8b127046ull,
0x2baf347166b84f2eull,
0x2baf74e42ce259beull,
0x2bb1d98c3b83deaeull,
0x2bb315cb0607a828ull,
0x2bbd6279be961400ull,
0x2bbe0cb4a00da938ull,
0x2bcc5ae1cd3347edull,
0x2bd274129a575db9ull,
0x2bd3d3f810daa745ull,
0x2bd59a3ae77ff705ull,
0x2bd6c7c6acf6cd4aull,
0x2bdc1b242d4ed513ull,
0x2be48bc372604440ull,
0x2be82ae1df24fa72ull,
0x2bea655d9d0c7ab8ull,
0x2beafdf586d8134bull,
0x2beba355848f6dd3ull,
0x2bef533a91fb7f80ull,
0x2bf7e173a94e16e5ull,
0x2c096de4ba6d78bcull,
0x2c0e9375c0483effull,
0x2c0eb6f42a0184e4ull,
0x2c0ee700f1bc1ed6ull,
0x2c0f0403bdbfc1a6ull,
0x2c148af43753d9deull,
0x2c16917295623b73ull,
0x2c242018e6de44c5ull,
0x2c2a10491d16948bull,
0x2c2ffe605468ae9eull,
0x2c346d9a94bd47beull,
0x2c37e968341f42feull,
0x2c38f58e5128b067ull,
0x2c3b13ac7aeac993ull,
0x2c438887a6163e69ull,
0x2c589472f2ea7a9eull,
0x2c59633505a150b3ull,
0x2c5e2c798a4d6149ull,
0x2c5e8d0e83841347ull,
0x2c5ea0b98d7d04e6ull,
0x2c5ead159bd4bb39ull,
0x2c69e29c1e2f4ad7ull,
0x2c7d35678074b426ull,
0x2c7d35f120295062ull,
0x2c7e2a11d6c0116cull,
0x2c7e57d8ed9dc06aull,
0x2c820787c11fc542ull,
0x2c8990bb4e9e5dffull,
0x2c8d6db7bee870e4ull,
0x2c91efa5cb9117a1ull,
0x2ca0574211526d35ull,
0x2ca6cf849ac3f778ull,
0x2ca78b2da9c3f6cbull,
0x2cb3739b7d3b2154ull,
0x2cb6c05b2a23f068ull,
0x2cbb160981c6050full,
0x2cbc48830344b757ull,
0x2cce93828cdc6989ull,
0x2cd31f0b33620bbaull,
0x2cd3cfaf1fa6d42dull,
0x2cd48c5444f12e03ull,
0x2cd9e606608dab2bull,
0x2cda155d1f324b78ull,
0x2cddf594de8b8689ull,
0x2cdeca7d261006d4ull,
0x2ce500223edc22c4ull,
0x2cf16d719d4cc79bull,
0x2cf5a49d07d7133cull,
0x2cfde50c674b46eaull,
0x2d03cdd169e5a716ull,
0x2d03f359d988ebacull,
0x2d0e9ea22747e101ull,
0x2d139c7674cd424full,
0x2d14b8a3f484702eull,
0x2d17e031fe461b48ull,
0x2d20e35917730439ull,
0x2d2c67c083d00a23ull,
0x2d3032a6463c18d8ull,
0x2d31692ddf95d0a0ull,
0x2d3946c5ea211af2ull,
0x2d3f3e8a603e7453ull,
0x2d4e2f69ee0a9429ull,
0x2d4e66b2347d900bull,
0x2d5703c44859f6e9ull,
0x2d59b7c116aa4984ull,
0x2d6a566ea3c40608ull,
0x2d6b5ae02a6811b3ull,
0x2d6ef25c4cf93c09ull,
0x2d727ed26e226e0cull,
0x2d7644189a0888f7ull,
0x2d77e4a08285f39bull,
0x2d7d23bf7ce8a7eaull,
0x2d7f33701a8b9a0bull,
0x2d8101ac65ef01c7ull,
0x2d86d57f2f76e4cbull,
0x2d8d2b59f9fcd0c5ull,
0x2d9500b295f4c576ull,
0x2d984c7f9d861d28ull,
0x2d9a3c9a312ee359ull,
0x2db4c284a85e2318ull,
0x2dbb303065ecf8aaull,
0x2dc05a6025c82e2dull,
0x2dc06571ffe8fc11ull,
0x2dc12db512bec625ull,
0x2dc5febde775c160ull,
0x2dc8b98b57af958bull,
0x2dd360063388f555ull,
0x2ddab371b3e2c489ull,
0x2ddac8676d32c9afull,
0x2dde0df4999867adull,
0x2de7fc37bf476bf3ull,
0x2deddd61b01630b5ull,
0x2df1d69076f47cecull,
0x2df6b7c84f0a8094ull,
0x2e0473ddd06dfa34ull,
0x2e0c33b8c4cc644bull,
0x2e0e20df7cdd9940ull,
0x2e1016c4419b7e7full,
0x2e19b7ebdb33f6f5ull,
0x2e1e09c6a91b4dfcull,
0x2e25c03679fdc741ull,
0x2e26501de22dd057ull,
0x2e2e7cb11030ee1full,
0x2e305950f5189da9ull,
0x2e31044d3a25b0f7ull,
0x2e38f9bc6f877a4eull,
0x2e3c39d50ba43282ull,
0x2e48de8092e0060dull,
0x2e48f7095603deabull,
0x2e49566a92c3e48dull,
0x2e51ce4a7c817cf1ull,
0x2e5cc8a57407db53ull,
0x2e647f067c446e65ull,
0x2e66c54dcb2fe669ull,
0x2e6eb27ed5496f55ull,
0x2e6fac96c0ac4854ull,
0x2e73b31e720d51d6ull,
0x2e7413307068bf60ull,
0x2e74989706828ce7ull,
0x2e757c5913e3ec99ull,
0x2e82e3649afb79faull,
0x2e8a6fa873215416ull,
0x2e8ae91c3f379c4aull,
0x2e8dd8ed8ef5e48bull,
0x2e8fd36bd77d1ba7ull,
0x2e953c46b80afac2ull,
0x2e958c4497c80003ull,
0x2ea22373ff59d408ull,
0x2ea623a327710a97ull,
0x2eaa07f05c4d6e92ull,
0x2eaf8bc625ffaad4ull,
0x2eb162dfb7daf550ull,
0x2ebb7a7e6547803aull,
0x2ebc1f4ad1997fadull,
0x2ec07e5335040b7bull,
0x2ec2096c5af313dbull,
0x2ece27a04d20b180ull,
0x2ecfcf98147eb3bbull,
0x2ed504aa239ed2ceull,
0x2edd37b9a1673021ull,
0x2ee1016e71ba079dull,
0x2ee890f8173e538full,
0x2ee9a9cfe46a92e9ull,
0x2eecfae8747a98ccull,
0x2ef640667109c201ull,
0x2ef965351edced7bull,
0x2efe150ae2a7b23eull,
0x2f01540df379c49full,
0x2f0d4fb3a0eb2278ull,
0x2f12ba13ccf51e9bull,
0x2f14bddae08cfc86ull,
0x2f16d74a86222650ull,
0x2f1f08e48016bfd6ull,
0x2f1f7cddfaa8c817ull,
0x2f2238f758ba7c45ull,
0x2f26485e8703f31dull,
0x2f2861d67250bb4full,
0x2f2c69b4613053a2ull,
0x2f34479f8884ccafull,
0x2f45a0f698885c26ull,
0x2f5b21b8e560af4full,
0x2f5d546da7edb437ull,
0x2f6b4466f0e2b5d8ull,
0x2f6bafca723f0cbaull,
0x2f6e04b82918c38full,
0x2f75e29ccaefd221ull,
0x2f8a8da6649c65fbull,
0x2f92269909ccdad7ull,
0x2f9371bd05cc5853ull,
0x2f98a79996be9932ull,
0x2f99aadfa250fe2dull,
0x2f9e775dabb68d0bull,
0x2fa1fbbd2c040cddull,
0x2fad6998b528515full,
0x2fb276ba3210c21bull,
0x2fb55696a601930dull,
0x2fb79d47e03e250full,
0x2fb8bf007d137290ull,
0x2fbcb3ae1dbbb85bull,
0x2fbcc888662a7e5cull,
0x2fc522333dcd4074ull,
0x2fcb1e1a471a82d3ull,
0x2fd3ef2d7e1f5081ull,
0x2fd6409e2183baf6ull,
0x2fd7f84211d1c95dull,
0x2fd7ffcc23d3894dull,
0x2fd849daf97307dcull,
0x2fdab25bc615b5b3ull,
0x2fdfaf90e2089746ull,
0x2fe336c8d7de710eull,
0x2feb7fa2fa2e5ef8ull,
0x2fece77937f2c7adull,
0x2ff29efc08963d37ull,
0x2fff0864056dcedcull,
0x30016fc73684963full,
0x30023f7d34a97e37ull,
0x3005805d971a96daull,
0x3006881f0296f02full,
0x3008ee32707d2c9eull,
0x30097dfa93b34f5aull,
0x300b25ff547799b9ull,
0x3019c432c25cd937ull,
0x3024d83842cd3060ull,
0x302ce059ad7c97feull,
0x302ec48a9f3c413full,
0x3030830cf8997349ull,
0x30331d1ebd7e5ed0ull,
0x3047ec4eab51eed3ull,
0x3048f602322f133aull,
0x304cfeb6acfa1d6aull,
0x30535794afa4535eull,
0x30539315eeb0b490ull,
0x30550caf7eeee9f1ull,
0x305a23e4ff7ae115ull,
0x305dd23185b8f0a3ull,
0x30690c407fbf9edeull,
0x3079ca4f98cdb39dull,
0x307a5fc3fa114c3aull,
0x3082749cce76465dull,
0x3084abae9f7e09bfull,
0x308714d28ef98f8aull,
0x3087e48a0b6a8aa4ull,
0x308996102a05a310ull,
0x308d1780e2cd11efull,
0x308e9027065974a3ull,
0x308fe7ff82c189d7ull,
0x309109cf4d98cee1ull,
0x309f06535766c7e4ull,
0x30a1c0ee3d29c827ull,
0x30a4273c4348ee86ull,
0x30a6ff9d33cd6ae9ull,
0x30ac2ff4a8e1feb1ull,
0x30b6f31d56ccc464ull,
0x30b708871768e4b4ull,
0x30b89303fde16218ull,
0x30ba33bf11b27e9full,
0x30bb205ccd73404aull,
0x30be38e1bb310d10ull,
0x30c2a29ca6da4586ull,
0x30c3a7d9dbce7671ull,
0x30d179af1e4a873full,
0x30d372a5b7fd3511ull,
0x30d70b400f7e5d4bull,
0x30dfb8478b9f59b6ull,
0x30e6a1a8b5c37a45ull,
0x30efc764e35aac67ull,
0x30f14562a5eb1a6aull,
0x30f3239416dec4b1ull,
0x30f54ef324aa668cull,
0x30f6fbf08488a166ull,
0x30f9b7cc91563024ull,
0x3103537aa6aaa366ull,
0x31106120feaad03aull,
0x3111e8e870f5342full,
0x311d6ece37cd2388ull,
0x31262a4d46b272cdull,
0x312640bcd90bc067ull,
0x312abbacbc439cbaull,
0x3132af771eb92730ull,
0x31361b24b5b8256cull,
0x313b01361b8edbbbull,
0x313fceab314497f7ull,
0x3143f389d49304bdull,
0x3147d0e2a2315503ull,
0x314a0b16815424ccull,
0x3151de7209f2b8c7ull,
0x31554b2f5b951a8eull,
0x3161599b4216a800ull,
0x3164b6fb79ecd574ull,
0x316f1f2fa2af8e15ull,
0x3172cf2880ab9d15ull,
0x3173ce531a68a0f7ull,
0x3177f1c4ae87fe6eull,
0x3177f3bc851e65d7ull,
0x317bb5c1ca8dd24aull,
0x3182f944a21f0317ull,
0x3185c16b6183f1e8ull,
0x3185e3f834529375ull,
0x318a1fd3799724adull,
0x318a7a6371732679ull,
0x318b425a655023b2ull,
0x318d41b90ba67080ull,
0x3199e13d0dd1875dull,
0x31a4425f613ff2a8ull,
0x31a55bbcfcb13ceaull,
0x31a5ef68d4e8dfc9ull,
0x31afcad75de45492ull,
0x31b3d1b69c059860ull,
0x31ba889eea202757ull,
0x31bf8b50899ff053ull,
0x31c1f8b1f53b4d98ull,
0x31ce0e1452ba3f38ull,
0x31d2315ba553a171ull,
0x31dbd68f6bba408bull,
0x31dc9f803b55639bull,
0x31e3578d8afa7128ull,
0x31e653b18adf7236ull,
0x31e84c388f52e30eull,
0x31ea30a9cfa613b3ull,
0x31ede7e3576921c9ull,
0x31ee2fa5bfe1a3e3ull,
0x31ef59d354179f06ull,
0x31ef9668addd6a0cull,
0x31f2812ed673c3bfull,
0x31f2c5c1a25bb409ull,
0x31f3d430cd9efcdcull,
0x31f42981f0b7e226ull,
0x31f74e87ab263130ull,
0x31f9caf9c02b4733ull,
0x31fc608b8d62ce32ull,
0x31fd367cef0445f5ull,
0x320cb73ffc216eb0ull,
0x32111da2fa588c41ull,
0x32115d260178ab22ull,
0x3211b436168aa8e9ull,
0x32285db7ea77e04full,
0x322a89aae1b11fe7ull,
0x322e43c74f063c66ull,
0x32303468a9ccd317ull,
0x3230bf7108d03301ull,
0x32318dd68f2b8b4full,
0x3238ef445789b277ull,
0x32436c70b830c113ull,
0x324848d5e24b0ee7ull,
0x32493de7c5c8169aull,
0x324b1ed241ae76d7ull,
0x324ee8fab224ebe8ull,
0x32543f03ca827b69ull,
0x3259778d4e57e067ull,
0x3262d5b96e9b9202ull,
0x3263d6ab31aeff71ull,
0x3267bb691362167full,
0x326cc7b188a3d3cdull,
0x3275b7ec82fff687ull,
0x32769cda292b5fa5ull,
0x3276bcfa0febcf81ull,
0x327babec99a6be08ull,
0x3280dbc3593fd32cull,
0x3282c49a0e6b1863ull,
0x3285c17786d4ae32ull,
0x32955995eb9c03a8ull,
0x32a3e40a15e835dfull,
0x32a4590af6b08bd8ull,
0x32aef6f35bcf69b8ull,
0x32b129e012de7bdcull,
0x32bd692b22577c32ull,
0x32c35f8413ab61feull,
0x32c8450367efb311ull,
0x32cd96877b42c46cull,
0x32cdfda331bc0cabull,
0x32d182aa688fcbdcull,
0x32d3fbed673fc193ull,
0x32d9ff81e7450727ull,
0x32db28c06b206743ull,
0x32dc0210065836daull,
0x32dca0daa3425b88ull,
0x32e4a8c32af2912full,
0x32efecfb6e01b2abull,
0x32f02ca290e012bdull,
0x32f89cdff80d9a89ull,
0x32fad5daa4e729e7ull,
0x32fed716ddfc52c3ull,
0x3301327260764bc2ull,
0x33016b2c2a4e82aeull,
0x330846009b635994ull,
0x330f8768e42d0a65ull,
0x3316a320388460acull,
0x3316d87d87d12aafull,
0x33174a17d3a83c45ull,
0x331d8f66538cd66cull,
0x331e7afcc4bff63eull,
0x332175d4698993d2ull,
0x3323d6e35803a079ull,
0x332a5a6a8527087eull,
0x333184bf244d2a58ull,
0x333fd51378adfb89ull,
0x334906b72363063cull,
0x3349d01ccaef49e3ull,
0x334fe133be912ae1ull,
0x3351360ffee0bb51ull,
0x33526c3247c9a31aull,
0x33526f42963d2366ull,
0x3354885dc812da57ull,
0x3356146e42527449ull,
0x33571259e7cf267aull,
0x335b60346379cbe6ull,
0x335c32de3d004cf6ull,
0x33613a552ac8041full,
0x33626ae5beac1567ull,
0x336a0d3d2a157f86ull,
0x33710ac1bbbb5a51ull,
0x33726c0a52379c38ull,
0x3373fb2188d8cff9ull,
0x3375ea48d46accbdull,
0x33769854b4d79857ull,
0x3376b44ad128208bull,
0x337eb73c946ac526ull,
0x3380ec27640e3e35ull,
0x338cdcfe1beab549ull,
0x3391c1c5b8544d19ull,
0x3394d221bbc4747aull,
0x3394f27739eb614dull,
0x3395a9e93ae9603eull,
0x339b695ae6c68e8eull,
0x339d14b5789b8ce6ull,
0x339fe5f8aca05a1aull,
0x33ab631cb2ebf201ull,
0x33ac7f99371d0772ull,
0x33b40f8e922a2242ull,
0x33b521a2b5389e63ull,
0x33b59474e990d314ull,
0x33bf872d3c815510ull,
0x33c76a68fb95a818ull,
0x33cf3cee3aefe29aull,
0x33d165cdb604e40dull,
0x33d4e5a383244550ull,
0x33e9a9d6d44fd5ccull,
0x33e9c8bd48775c83ull,
0x33ea7c152d62a140ull,
0x33ed145ae60264f0ull,
0x33f0b4fadb19b5abull,
0x33f308c181c975ccull,
0x33f647a464b235e0ull,
0x33f6b4dd104a6d72ull,
0x33f9526661879eacull,
0x33fcf661fa0ddfb0ull,
0x34102b2bee0a2e6aull,
0x3415334505b4c5e9ull,
0x3415b72c7316bef5ull,
0x3420fad409c84dedull,
0x342e70e1024a9074ull,
0x342e980156b495efull,
0x3434583fbf23e68dull,
0x3437a4d7e8aec3efull,
0x34478a5c52e684baull,
0x344a06a567aaac40ull,
0x344e84007331c96bull,
0x345294337092c5e9ull,
0x345365e1567e11e6ull,
0x3458e33307e4be15ull,
0x345e79bd9f404f37ull,
0x345f47a8bd18b1a3ull,
0x346bd244df7f66d2ull,
0x346cc262ebb25772ull,
0x3470c4702ef29ddcull,
0x3470fdbb1d4101daull,
0x3472ecd6dab4a473ull,
0x347433cd8a0b8c21ull,
0x34936b2f1ac1ab18ull,
0x34948a0de6b14f96ull,
0x34959d49e1bb5f0bull,
0x349e2d6f08007452ull,
0x34a3b7f857f24d6eull,
0x34b0af83a9437c3dull,
0x34b5b24d4adc1c34ull,
0x34b822e35fdc262aull,
0x34bb2e091d0869f9ull,
0x34c775c83f1096c4ull,
0x34c86c64167eacf9ull,
0x34cca9535b330630ull,
0x34cd5c389da4415dull,
0x34ce5de42f597091ull,
0x34cf1e673f8a7513ull,
0x34d099daafe9995cull,
0x34ea97314ed586deull,
0x34f82f0a22e09b38ull,
0x35003f5a79741bc4ull,
0x3501abb3428b43feull,
0x3502537de3ddfbcaull,
0x350410b1e2b74becull,
0x3508a534bcef4b6cull,
0x3508ae1df065ed2eull,
0x350b867941b80957ull,
0x3510d839a1ee5b9aull,
0x351332aee8572a9eull,
0x3513502e230a27c4ull,
0x352027c4454e46ffull,
0x3521065569c984c1ull,
0x3522b4fbae769bf5ull,
0x3528abcfc457590bull,
0x352c583ead64e0e4ull,
0x353bf84522a6463bull,
0x35427099af88e9dfull,
0x3544a4a25c2bc488ull,
0x35470373bcdbd21dull,
0x354bd2d0197e16b8ull,
0x3553cc6219e3dcbeull,
0x3556cc64aafc2d4bull,
0x3556f5aabab96087ull,
0x3556fccfd9c135a5ull,
0x3559746572cd7701ull,
0x355b6df007257f32ull,
0x355c6de13f63ee6aull,
0x356054502e0c5f90ull,
0x3567092987feaffdull,
0x356864056e2aa15cull,
0x35692515cc3d1237ull,
0x356e3d1da23936a4ull,
0x3574e0722e0cc4b0ull,
0x3577f388b9a75e6cull,
0x3578775bb377a51aull,
0x357a0061d7ff6861ull,
0x357afeb8facf5814ull,
0x357b42ee0e931f5aull,
0x357da99022321c18ull,
0x3588269b8801dc0aull,
0x358c9ef3a7178837ull,
0x359759a0ec21c6adull,
0x3598b28399fd1f01ull,
0x359d5772f74492dfull,
0x35a264c9d5274a06ull,
0x35a2a12e2d3d2820ull,
0x35a3c3e68be99531ull,
0x35a4ffebfef157bfull,
0x35abb7792c39e7a7ull,
0x35b08593b3478e07ull,
0x35b29792629f5337ull,
0x35bd898fa2bdc411ull,
0x35c247c60366ccc5ull,
0x35c33abddfabd855ull,
0x35c6c6738828fbadull,
0x35c7ed7963403ed1ull,
0x35ca49dbeb6a69e6ull,
0x35cae7d79c3e1ebaull,
0x35cc565df753e269ull,
0x35ccf3b0624d1ee9ull,
0x35d1c8b1b5b4ca75ull,
0x35d72b73d8264200ull,
0x35dc9b376da3db2cull,
0x35fb6a022ba4d4a2ull,
0x35fcb28929d043d7ull,
0x360162e8c308fd6aull,
0x3601e1cfc8fea6cfull,
0x36034b15a525a0caull,
0x360a9d03277b3ac6ull,
0x360aa296e588411bull,
0x360ca547fb4075eaull,
0x3614ff95b33915b0ull,
0x361a8fcd7fddc0a0ull,
0x36254a91aee25a98ull,
0x3626f80534063047ull,
0x3629d920a18f0489ull,
0x362ecb281d580dc0ull,
0x362f621ab8a09b32ull,
0x36389ef953f3d80bull,
0x364230f0fef3f029ull,
0x3642df999c00defaull,
0x3642ea45ff8a74f7ull,
0x3643be64a0592357ull,
0x3654f4e34102d595ull,
0x3655f75aa4cd9a43ull,
0x366a2abe34b22b40ull,
0x366a80f0199145faull,
0x367bbdbd6299541full,
0x367e18548dbb01f9ull,
0x3687fbc4f19633ccull,
0x368c4b3e3cf6429aull,
0x3690dfd3a0e946d2ull,
0x369339c26db57c37ull,
0x36960d550b902923ull,
0x369a8ee25dc457a1ull,
0x36a05690e2989981ull,
0x36a9546992e5db33ull,
0x36b0d4c1770f5bcbull,
0x36b2664fccf6064full,
0x36bbf4b57bfebe2eull,
0x36be720a1b3f883full,
0x36c08512d3258c7full,
0x36c2bfd5ae3edca2ull,
0x36c38dca1ac06e7eull,
0x36c88e8a1dc151d3ull,
0x36ce87f814d3bdf3ull,
0x36cf33dad8c284a3ull,
0x36d108a27dc38591ull,
0x36dac4812025ec97ull,
0x36dbf57e34b1df7eull,
0x36df7c67e2c84c77ull,
0x36e52bcec3002bb8ull,
0x36ef633be5172fbfull,
0x36f94d2e33f4110bull,
0x36ff245f7a83d443ull,
0x3702310b4108217eull,
0x3706e1c0f29e9fd7ull,
0x3707097ced562b98ull,
0x37093325e0572bf5ull,
0x370f41631a9653d0ull,
0x370f861d6b879abdull,
0x370f9f3f1647e543ull,
0x371282678b9c6f9eull,
0x371459c3a2ae7b92ull,
0x37168f18cdc20edbull,
0x372118a40dea61d5ull,
0x37229352241ae221ull,
0x372fcf1daa9a5075ull,
0x3733be6958543511ull,
0x3734569bd249af55ull,
0x3735217333df4774ull,
0x3736c3ae25dd2806ull,
0x373e2a33fb5b3f3cull,
0x373f9b9de05d8ea1ull,
0x374fcda5eb66677bull,
0x375033235811c0e4ull,
0x3753034b47cf5401ull,
0x3759028ace0fe077ull,
0x375ef5f67b653091ull,
0x37609c7a8d4ec7a9ull,
0x376928de8351d104ull,
0x37727d28a6a1b479ull,
0x3776244881e48ee4ull,
0x377b073c96c1c6d8ull,
0x377ffb8d364ddc84ull,
0x3780490f3d00d4d7ull,
0x37817e5e95993067ull,
0x378e592f66fce6d4ull,
0x3794fc91e3511afeull,
0x37a0ec55b9511b08ull,
0x37a34c0eda37cb11ull,
0x37a5c4d65665f04bull,
0x37a9cec2c66f43f7ull,
0x37acbcd821d283b1ull,
0x37b5d0a4c335253eull,
0x37ba3af5b80c28e2ull,
0x37bde36550f6a78dull,
0x37c5b3e79892cd7bull,
0x37cc0525cf878ef7ull,
0x37cdc519289140f4ull,
0x37d5ecd2211fbe20ull,
0x37e056c480efeb27ull,
0x37e132f024fe0bf1ull,
0x37e487950f20fc4cull,
0x37e81ded30662a44ull,
0x37eb3e3e21d8fc31ull,
0x37edaa7c220ba828ull,
0x37eecf58fec97962ull,
0x37f5800ecd97dbacull,
0x37fc657cf2048435ull,
0x38003181696b6bc6ull,
0x3803ec69dc4c6d46ull,
0x381a5c523b07b76bull,
0x381c7a1b81d942d8ull,
0x382abc1ceda54fe6ull,
0x382e65d996e1f9b2ull,
0x3833d1fd639650e6ull,
0x3834b5af78f5d171ull,
0x383b0095ba14df6aull,
0x383ea3ed8509ca2full,
0x3840237452050669ull,
0x3840fd8f56ede22bull,
0x384a0fb47237b97eull,
0x384a28c7ffb93f5cull,
0x3851b9177e327cabull,
0x3851f055ccbe677aull,
0x385457da6af1f53aull,
0x3857e931f36514caull,
0x3861f57e2c8daeffull,
0x386ab3aa22f15e41ull,
0x386f6f50d09034feull,
0x3870682586c4b8cfull,
0x3871338f9523dbe5ull,
0x38778a96f412a5f8ull,
0x38778e8fa6f9bbb1ull,
0x387b1827b793c9e1ull,
0x387d52b8e7303759ull,
0x388512dceb745319ull,
0x388f1df259d8e14eull,
0x389914d7df0789d0ull,
0x389b5d5a66b0e71bull,
0x38a2e139ecea5c7bull,
0x38a3113f54e34c4eull,
0x38a681912000fa68ull,
0x38a7d7b8cb7ef995ull,
0x38aa458ede0710e1ull,
0x38ad2310fa88cdd8ull,
0x38b13c36681f729aull,
0x38c12a7fa6f86177ull,
0x38c7a85acc6375c2ull,
0x38cc2f7e1bf1204eull,
0x38d16037b2128e0bull,
0x38dbac3578d2d4bfull,
0x38deb6ea618d3418ull,
0x38e142915a966ce1ull,
0x38e743ba715dd83full,
0x38e828a6cce43363ull,
0x38ea2b19696c9756ull,
0x38eb9f97ce6ba453ull,
0x38f64f066bb5f56aull,
0x38fa7cb36ba2c74bull,
0x390827bb9a75c34aull,
0x390a92a44ff4516bull,
0x39172c4f06d7f0b4ull,
0x391eea96b398a1aaull,
0x39212ead61789ed5ull,
0x39229ebab9198e3aull,
0x392be749cf647d4full,
0x392cf2b7ae59bec8ull,
0x392eb9b3876a3832ull,
0x393075927458f9e9ull,
0x393caea99b97a85aull,
0x39465acb47053869ull,
0x394ad0f2e8ad4403ull,
0x394e514c52352843ull,
0x394ea04f814e28d9ull,
0x395045b84ac0b761ull,
0x39609ca78d1831f4ull,
0x3961f5365cb865b7ull,
0x39663c2aa7498f99ull,
0x396c9b257ae3f881ull,
0x39779cbb348a00bfull,
0x398584b0a31cd10eull,
0x398dbf5a1267abbdull,
0x399148a8c769885dull,
0x39927b6304d3d00bull,
0x399434fc6549c01dull,
0x399720154a3fa992ull,
0x399ceff42f760bdaull,
0x399f16460a234594ull,
0x399f367223ccd08cull,
0x39a32efe98371a43ull,
0x39a94d787379ea52ull,
0x39accb998d653bcfull,
0x39af02d1f021f8e0ull,
0x39b10d64dfae4e86ull,
0x39b5ae80afb7315full,
0x39bfe1faef04b2f6ull,
0x39c1a2281df7fcc7ull,
0x39c322627a9d5a88ull,
0x39d3acb98fc0f8acull,
0x39d61a579564ec9full,
0x39dffe3cb6a0afccull,
0x39f1ec8eaf6e6022ull,
0x39f4f5c52a387d22ull,
0x39ff4cbebcc11194ull,
0x3a02ffbbe0ee3cd5ull,
0x3a0f8f4e3f5c14f1ull,
0x3a15cbc6ca6a8744ull,
0x3a1662888f7bd95full,
0x3a1876fef699d5d4ull,
0x3a1f974c53aa9596ull,
0x3a22f0a226f30ce9ull,
0x3a32dc71e5cdd533ull,
0x3a35c337c1279ec7ull,
0x3a378b8e92f2f2e9ull,
0x3a3d3c3a70f43168ull,
0x3a4332e3aed53e91ull,
0x3a4689ca24fb1bbcull,
0x3a471cf13bbfa8faull,
0x3a479e6afdb1b63dull,
0x3a5028c60195f154ull,
0x3a5455e26cab7a74ull,
0x3a60115c8922cc48ull,
0x3a6186cc7846759eull,
0x3a62c9337c299d58ull,
0x3a62d323880ad090ull,
0x3a662bc44b35c19cull,
0x3a6adb0fd653343eull,
0x3a6b84624f07e360ull,
0x3a6e884519c3021eull,
0x3a7a13bc6be8532dull,
0x3a8033756d1a66e2ull,
0x3a82ce1eb986a274ull,
0x3a83598a60ec5970ull,
0x3a858f9f1c598f93ull,
0x3a8aa5ce0ec9ce05ull,
0x3a8d6702684f6503ull,
0x3a8d6f8e5fbf2306ull,
0x3a93239f5b2f8afbull,
0x3a98cae74ef7c5c3ull,
0x3a9c09cb8036e0c5ull,
0x3aa1c14a2870cc2aull,
0x3aa7eb4666cd1497ull,
0x3aa84449192db38full,
0x3aac1e81341b509dull,
0x3ab3090f3dace191ull,
0x3ab78f3d21aa25bbull,
0x3abb3d22984f4403ull,
0x3abfcf7eff90fa7cull,
0x3ac14b74bceeb105ull,
0x3acddd84f9a01c1full,
0x3ad0e1da0bea00b0ull,
0x3ad8d2f7c1e33bc5ull,
0x3ae1d1b0952a2e6bull,
0x3ae227af3bca1975ull,
0x3af4d54ff2b081abull,
0x3af8b02a0a7faab8ull,
0x3af8dd8881a334a7ull,
0x3aff648ca0f97261ull,
0x3b058530ba243ad2ull,
0x3b0d23ef28c6f1ebull,
0x3b11028067a28d50ull,
0x3b14aa6f9ce84061ull,
0x3b1588850f1362d9ull,
0x3b2919461afdac67ull,
0x3b29639fd3a7d12cull,
0x3b398367a22f00e7ull,
0x3b40b7a529036420ull,
0x3b4144a893346360ull,
0x3b4d283e7c938d62ull,
0x3b54c9a8f0c8b41cull,
0x3b58d06bf0b3f2d2ull,
0x3b5f19a295756584ull,
0x3b608f19f660ec19ull,
0x3b6563cab35e396cull,
0x3b6ab876b8873ff7ull,
0x3b6b5f905d39b8caull,
0x3b6ee3881b5d46ffull,
0x3b7133e0114fb226ull,
0x3b7303aa5753f7f4ull,
0x3b7791f447e1e92full,
0x3b79e978a9c0f95dull,
0x3b7f722fba733ef6ull,
0x3b7fce48141b25ffull,
0x3b8077abd38a60aaull,
0x3b883847d29a6001ull,
0x3b8b3abb7d83bffcull,
0x3b8ecd18879bc7f3ull,
0x3b91d92e8d9a95dcull,
0x3b9517859a2b0dfaull,
0x3b96bd2896811937ull,
0x3ba17e040086bbdbull,
0x3ba30303955f0761ull,
0x3bba6d62e0f64544ull,
0x3bc8094d346f7418ull,
0x3bcf0dad5ac32b15ull,
0x3bd0ac43b68282d9ull,
0x3bd25821be55463full,
0x3bd4a840f1dc6ad6ull,
0x3bd9e77c2e8c40f4ull,
0x3bdd898da2591cacull,
0x3bde3e4bfb7a78bbull,
0x3bdf915f8a46c506ull,
0x3bdf936434d7bcb6ull,
0x3be43677bc33436full,
0x3be498bd92a55043ull,
0x3be58de9a4bcb381ull,
0x3bf653d42c8831ebull,
0x3bf95928eec9a838ull,
0x3bfe1b65ed668158ull,
0x3c002662ad3bc6fcull,
0x3c0ada62ae1a22a2ull,
0x3c0af0dc32393eb5ull,
0x3c16794595d927e2ull,
0x3c1ca84e37c55662ull,
0x3c1e6ea61045cfcaull,
0x3c1fd014cfd38dddull,
0x3c2418682a7e77c9ull,
0x3c2a5d810f9932a0ull,
0x3c356c0d6af2eb13ull,
0x3c3c14f5c095041full,
0x3c408b2d29a0f9efull,
0x3c42f0f17a64f1beull,
0x3c44c79e356b7517ull,
0x3c4b9d2502b71b28ull,
0x3c4c0b2724c097adull,
0x3c4d21a77e7f9f14ull,
0x3c4e1a6f398baadcull,
0x3c521a07beee89eaull,
0x3c54cbd0e6fc0acdull,
0x3c63ec75199fc738ull,
0x3c66b9ce988bba43ull,
0x3c6cd0bec1d2ef6dull,
0x3c74352b46773999ull,
0x3c78f78a57419a5full,
0x3c7a2eaf97dd8287ull,
0x3c7c792b0d8a9010ull,
0x3c8562cdd844e777ull,
0x3c85ee92a48d0de3ull,
0x3c86eb79a8c5135bull,
0x3c89bcba98d74535ull,
0x3c8ff3088a7c5f74ull,
0x3c97ae2acf4343e8ull,
0x3c98c720de0aa6ddull,
0x3c9e1d099debb706ull,
0x3c9e8c5455992edcull,
0x3c9ee734e414be65ull,
0x3ca95fd69beaa342ull,
0x3caa34d77ed63ff2ull,
0x3cb2f893a3d20716ull,
0x3cb570d39709cc9eull,
0x3cba329c052189d5ull,
0x3cc0a5945764992bull,
0x3cc454936787e15cull,
0x3cc51d1d56cba1fbull,
0x3cc7cd84dfe1d5e4ull,
0x3ccc6b15dc23ed02ull,
0x3cd0d34fd12875eaull,
0x3cd33a41ef7f998bull,
0x3cd6bdabbed78a51ull,
0x3cdc088e61c427dbull,
0x3cdfe66868bef744ull,
0x3ce5f95fc131fa40ull,
0x3ce65af0fb70142eull,
0x3cf02e268d931a87ull,
0x3cf0559f9b14c534ull,
0x3cf4404a8bde4e91ull,
0x3cfa10025cee8e44ull,
0x3d00b9cc9e95c73aull,
0x3d0281f33a03baacull,
0x3d02da8f7d1a3275ull,
0x3d03cb42466170ddull,
0x3d09bbb78d86697cull,
0x3d0cf7e60220356dull,
0x3d152b0687445e89ull,
0x3d1602e37434f65full,
0x3d1bc1ec01c8e96bull,
0x3d1bcf0652d54338ull,
0x3d1f51ff9f52466aull,
0x3d25a89cf4f6a857ull,
0x3d2e2dfbd233bc16ull,
0x3d36582c8128a6e2ull,
0x3d38009bce7aac13ull,
0x3d3f6edbabc65c3cull,
0x3d425a52b0f05c74ull,
0x3d42972b444383c3ull,
0x3d44426f87dd3dcaull,
0x3d572c706fab31fbull,
0x3d5d431edfabc40full,
0x3d5d9e3deead5fddull,
0x3d652fc34b7e06b1ull,
0x3d65c6d1138ce017ull,
0x3d67dee4f7168b78ull,
0x3d6ccf0693d3d51dull,
0x3d7282fff6c1b760ull,
0x3d7707fc4490dd2dull,
0x3d782ea57f1bf192ull,
0x3d7a2b1f19e1e126ull,
0x3d7fc222341c6666ull,
0x3d8b71e737533210ull,
0x3d8d48dff7111a07ull,
0x3d8de7e2f91d6963ull,
0x3d9e1dd92ce437baull,
0x3da46ede618ef131ull,
0x3daadb6ac66c32d9ull,
0x3db22d018c7ba2f0ull,
0x3db2f22dbae16e27ull,
0x3db612e34bd2a07aull,
0x3dc0b6e52b90408eull,
0x3dc2b6938e17dca1ull,
0x3dc38b845b0f32f1ull,
0x3dc7539602da9425ull,
0x3dd1e4125c54ca08ull,
0x3dd4777c35c7e428ull,
0x3de06afd481107e0ull,
0x3debc6c4debc2042ull,
0x3def3e4e5a3c6ff8ull,
0x3df038b71f60dd67ull,
0x3df55d5309b695dbull,
0x3dffab7a9aeb4515ull,
0x3e036cc1f5dc0b67ull,
0x3e15e8b7f6498c90ull,
0x3e1b2dce07248f51ull,
0x3e1d7f007aa683aaull,
0x3e1edd985c9c1eafull,
0x3e24dd346f470e94ull,
0x3e2b5c8ac5c30a3bull,
0x3e31885d0fe7dadeull,
0x3e385af06ed27308ull,
0x3e38b3ea67a505b2ull,
0x3e449d274a8fafceull,
0x3e452cca94552c39ull,
0x3e49812b209cd28full,
0x3e5200d39346cad9ull,
0x3e5407155bb66466ull,
0x3e54c10cf629a061ull,
0x3e5929202bfad421ull,
0x3e6b3d5892f6e6a3ull,
0x3e6b64c498548afdull,
0x3e6b9ed20d3d08d7ull,
0x3e6c71b58cc22136ull,
0x3e7060d486b2c93eull,
0x3e7ba8736fd35f5cull,
0x3e9b5586b5313856ull,
0x3e9d515ee62388f6ull,
0x3ea000d54cc9d594ull,
0x3ea0cf37cfee262bull,
0x3ea43e4796b61cb7ull,
0x3eabeba891e9341full,
0x3eac5fea8fe5f051ull,
0x3ead4ed11dcef957ull,
0x3eae6648327b0a29ull,
0x3ebdae135970cb13ull,
0x3ebe771fbb5c0360ull,
0x3ec60de48b8e5e35ull,
0x3ecbbe6a21080c95ull,
0x3ece28d2b0547173ull,
0x3ecf32efedc2f514ull,
0x3ed3e5ac951f526aull,
0x3ee8b236c244a546ull,
0x3eeaa6c6e8020867ull,
0x3ef76310e23220f9ull,
0x3ef8930ef3c35465ull,
0x3ef90841e1d97462ull,
0x3efacabdbf476353ull,
0x3efd828ababbc98bull,
0x3eff4468185159d4ull,
0x3f0143653d47acf5ull,
0x3f07084f332dc8adull,
0x3f07cce0b938ce37ull,
0x3f0cf18416c0c30full,
0x3f1125d488fe9768ull,
0x3f166c265023b8ebull,
0x3f198c4356dc892dull,
0x3f1e7d79626c2584ull,
0x3f24735b2295c007ull,
0x3f26137f1fe12884ull,
0x3f31c2c16b60459aull,
0x3f35db0924f9dbe2ull,
0x3f379508003f1411ull,
0x3f3c10505426229full,
0x3f44d2acfdc759a4ull,
0x3f48474dcc1448c0ull,
0x3f4d3a0460b9432aull,
0x3f4fa4fdcf0dc2b8ull,
0x3f4fee22ccd82e09ull,
0x3f514dc7adbdf334ull,
0x3f5aa305a91c07eeull,
0x3f5aaf5b67758a74ull,
0x3f5b74731304a945ull,
0x3f678af05a513464ull,
0x3f6bb246ccad5ce5ull,
0x3f6d0ee5af46f772ull,
0x3f6d3237c0a66433ull,
0x3f708f0c76b26e05ull,
0x3f737c836980a24dull,
0x3f737c9aa64cc090ull,
0x3f7876419f10c416ull,
0x3f7bc937bd9bd449ull,
0x3f7bf3d5852024c6ull,
0x3f803ddeccf1217aull,
0x3f8e35672b385bc3ull,
0x3f9a7498cbba54e4ull,
0x3f9f8c54908b2217ull,
0x3fa781f39b6751feull,
0x3fae3fbb441a7916ull,
0x3faf439eae08222eull,
0x3fbe97c854c20646ull,
0x3fc05cfe987e376dull,
0x3fcad43e32d51060ull,
0x3fe168811b31a339ull,
0x3fedf8dfd3b79109ull,
0x3fee4c4727da578aull,
0x3ffba2bc3e2fae0dull,
0x3ffd050233604d39ull,
0x40042d322ac65c77ull,
0x400d7cac5c9d65c8ull,
0x4018f2e70bb35af8ull,
0x401a3bc85f87a6ceull,
0x401cc6e9c32af782ull,
0x401d68613a6b72d6ull,
0x40288c84e9df25faull,
0x402a2bc606385610ull,
0x402a8c3d8eb6b95cull,
0x402b5cf1a95499faull,
0x40303d686f13dea1ull,
0x40336a105f2929a4ull,
0x40351b414d773d77ull,
0x40390943906d8c0cull,
0x403a4a95a6509fe9ull,
0x403c3118be520aaeull,
0x403c55200f019d99ull,
0x40440b77e4dcaf0bull,
0x4047ac7f865e7cf9ull,
0x404f7b5c558721faull,
0x4050349f96d3e85dull,
0x4051e631fa61aa68ull,
0x4052d08fdd5a01b0ull,
0x405346614abaf7abull,
0x405b4b87ab388f4full,
0x40605fbd17de020eull,
0x406454b29e209aefull,
0x4065df0f10a82e24ull,
0x406745de29d28065ull,
0x4069f0b2673e0767ull,
0x406a2f1737de4907ull,
0x406c2ce8ca98bfbeull,
0x407b0e492486f1cbull,
0x407cbe4027599850ull,
0x408337f229ecae27ull,
0x4083d98cdbf13571ull,
0x40892a1ab1bb86beull,
0x40896d2318ca6e6dull,
0x408b0a14d98101f5ull,
0x408beabe4ae2d17eull,
0x408fd38f96c25675ull,
0x4099245cfc4043a2ull,
0x40a7e905aa520f3cull,
0x40a9dc86cdeddecdull,
0x40b3769f4ddb763eull,
0x40c0b6480a6126e3ull,
0x40c1315c0c04d0d7ull,
0x40c37683d6551d22ull,
0x40c5e48ec6b2db5bull,
0x40c8e9e2aa5cbc21ull,
0x40cc1fed87338637ull,
0x40d14804fc94875cull,
0x40db973125c05d73ull,
0x40e6a947fb09a611ull,
0x40e90c58da31ddd2ull,
0x40e99085cd14fa39ull,
0x40e9f44974450188ull,
0x40ecd9f3ccea043cull,
0x40f0ed59bcc7ad30ull,
0x40f0f439fccd58caull,
0x40fd80943b13350dull,
0x41012cba002e4a1full,
0x41023ba50aaad934ull,
0x4103c4c9e2fd33e1ull,
0x410447bd92fbbdfeull,
0x4106bc18cf5696b6ull,
0x410f4d16bc2a3564ull,
0x41124728f77dbfd2ull,
0x4113eb1124bb5495ull,
0x411488b0792e3b67ull,
0x41159ae45ac857f2ull,
0x4115a54e067ae7e0ull,
0x4116dd805f5b846eull,
0x4122cbf3b768ae4bull,
0x4128434cc7b00ac0ull,
0x412a20caa3794c68ull,
0x412b04cef8b4506aull,
0x41319e886916b790ull,
0x413a4a5f23e73a29ull,
0x413a9ea9ae40b3b1ull,
0x413dcb8acbe1663dull,
0x413f61a3a589e7e9ull,
0x4146e21c4a6f9310ull,
0x41490ff810f5a4c0ull,
0x415965f503d7cd3dull,
0x416353524fcc3d93ull,
0x4163d1b5df07d246ull,
0x416e1804ddcee7f7ull,
0x416fe2ef8678e0d0ull,
0x4170031472cf6496ull,
0x4170efe4391a2eaeull,
0x417547f6c8cb386full,
0x418fd08f7d77b3d6ull,
0x4195ae5d9b9f6d93ull,
0x4198d181b12a783full,
0x419e08edb32b82adull,
0x41a32e44c7ce6b75ull,
0x41ad9965ff0f0497ull,
0x41ba6d76fab3c3f7ull,
0x41c34ee2542ef60aull,
0x41c60028f20707feull,
0x41ce46c258412901ull,
0x41d0eba8ad578780ull,
0x41d12dd2fca4b8f4ull,
0x41d29237807c355cull,
0x41dda904e6f0aca8ull,
0x41dfc52867edfff2ull,
0x41f1e3fb628cae2full,
0x41f3794760fc67efull,
0x41f3f0595740953full,
0x420404104825595cull,
0x4207c03379295075ull,
0x4209d8838f6c7e2dull,
0x4209dec8c7d40067ull,
0x420e11767bc4d19aull,
0x421039dcb2e811ffull,
0x42130db2ac51cfa2ull,
0x421547c646c30f1cull,
0x42164f7269350c2cull,
0x4217c3284ad3aaacull,
0x4217c346fbbabd9full,
0x422920790b0c4e15ull,
0x422ec9743264669cull,
0x4230e8e54d63afcbull,
0x42408a81e77aa8a0ull,
0x4242792a4142cf42ull,
0x4242928f43c46623ull,
0x424ac2eb4175e26eull,
0x425095a17c8802cfull,
0x42510b5b93e02b21ull,
0x4251ac4afc86e74bull,
0x42591ddcffc7ee54ull,
0x4259e2dd329742a4ull,
0x425ade219c0673ceull,
0x425d379d6a6545fdull,
0x4260b924294f950cull,
0x426fce96bda2b08aull,
0x4270af28591b55d6ull,
0x427158e4fc6f5baeull,
0x427631d870066c18ull,
0x427918383f87baaaull,
0x427f93162045fa0eull,
0x428328e15793358dull,
0x42835420acafaf48ull,
0x4286f9ef68e44f9full,
0x428c6cfc5996e5d2ull,
0x428ca6fa3e4357cbull,
0x42916e3d49fc8168ull,
0x429c117b053efa4dull,
0x429e2dbb95515f4dull,
0x42a128715fab41abull,
0x42a1ae73ea791135ull,
0x42a3665332e10698ull,
0x42b5e45f7e00d1a6ull,
0x42c2d41dbbd1c846ull,
0x42c49c39c253bd8full,
0x42c6d83ca740e419ull,
0x42cdcd8c19057490ull,
0x42cecc0120aa01afull,
0x42cf0e7d0f4d7623ull,
0x42cf1f7d21acd003ull,
0x42d777728b595386ull,
0x42d856ca065df171ull,
0x42da4ba4bbb2ee31ull,
0x42dd8f5cc5a21451ull,
0x42ddd427448973bcull,
0x42e2c9618d4f3794ull,
0x42e31c4774471ae4ull,
0x42e6d9ef7a91b5dfull,
0x42f5677f5d2f6ce8ull,
0x42f8fad5d3275224ull,
0x42fd624d1aee8b77ull,
0x42fff049e6ef07f6ull,
0x4304d29a6c08b9f7ull,
0x430803ec76fc56c3ull,
0x4316b9455b37ac81ull,
0x4318733daae3e9b7ull,
0x4318bcd0c3792223ull,
0x431cb1602f0d2766ull,
0x4323985610280832ull,
0x4323998733b5f83dull,
0x43280757b0732181ull,
0x432fe8d9b2fe8a30ull,
0x4346549d4b87be1cull,
0x434b92e3d92a9657ull,
0x434c73f0eaf6bd9eull,
0x4351de6615bdb42aull,
0x435211c4241d781dull,
0x435a7ca8c3af8b47ull,
0x436334d999f0f3b8ull,
0x43638b60de6e31fbull,
0x4368b33888e734a2ull,
0x4369dbc586b85864ull,
0x436a32f40568bf21ull,
0x436ca55ff1e23ebeull,
0x437276bc420785f1ull,
0x43732282c00bb352ull,
0x437705bd2efc9cbbull,
0x4380f4bf38f5f58cull,
0x43864700c94b15f7ull,
0x438aaee9ed04f08eull,
0x438c0ebe5c33a3c5ull,
0x438fd8049421f6f8ull,
0x4394cdaf97ae1b62ull,
0x43a0a4e6c9451206ull,
0x43a522527c0de80eull,
0x43a8d5f82c513a1aull,
0x43ad4f85d7cadd37ull,
0x43b1df9a2ffb6dd4ull,
0x43c32a1f5abd6137ull,
0x43c4f2195c5c9317ull,
0x43cace7cf677daedull,
0x43cde18380248e42ull,
0x43e453ae7a3c660full,
0x43e625546745fc27ull,
0x43e93fdf25358329ull,
0x43eaef03b3981c5dull,
0x43eb5a2e02a010d9ull,
0x43efee6f81300b9dull,
0x43f0698782819366ull,
0x43f076d22ae7c85aull,
0x43f4d43ab64dd862ull,
0x43f8df2c721403edull,
0x43fb33d8f65a419aull,
0x43ff510c86c90da7ull,
0x440084d215121a97ull,
0x4410d802960b671cull,
0x4416fc9de5bb0471ull,
0x441a551c3c4fe489ull,
0x441e67536bdb2004ull,
0x4421de4fead5bda6ull,
0x442e3a6aca481e2full,
0x443533f2b11919c0ull,
0x443df3cdfacd776aull,
0x443e832a6cec2524ull,
0x44417cea15fd4831ull,
0x44436874bdebd160ull,
0x444a65c45ef871a7ull,
0x444ead736b1d73c3ull,
0x44570f41167c7f39ull,
0x4459efeabc87963dull,
0x445dfdbc2a2a9b4aull,
0x44643f4b6869dd69ull,
0x446488e05bb30a9aull,
0x44679baecf0b986dull,
0x446fdeac005fb31cull,
0x447aa2ad1534c546ull,
0x448d72aff2cbc7fdull,
0x449844f3096a7343ull,
0x449854927b9e7a87ull,
0x449c4890935fe63cull,
0x449ecb9bd3810f03ull,
0x44a5c2f4b0ec5b9full,
0x44a7bd423c724436ull,
0x44aa9c13e3c9c4c7ull,
0x44ac53303def2518ull,
0x44bd74249ec95c7cull,
0x44c2dc7743f6c9ebull,
0x44c50387d9eeb5bfull,
0x44cc3e2fd9305f5full,
0x44cf4dac8110c774ull,
0x44d427f3e51412f2ull,
0x44dcd0ce613aaf31ull,
0x44df72dd8a58864aull,
0x44e37cd6c146da84ull,
0x44e9bad75c8c7223ull,
0x44e9c109d46b09e3ull,
0x44eca245e86ef4fdull,
0x44f1c908916217e8ull,
0x44f2032ad808df96ull,
0x44f3eb7581ca8036ull,
0x44f83d25b72595fcull,
0x44fd5ff63862ceb6ull,
0x450148b9ccc6b6c0ull,
0x4508e4a4d7409445ull,
0x450a3a2e8d67252cull,
0x450b7f66363dbac1ull,
0x45120d9e94506304ull,
0x4514a98f982d4280ull,
0x451bbbc14e5ce14cull,
0x451ea41f0785112bull,
0x452424fab23a09f1ull,
0x4524ab3737c87c30ull,
0x45264d5e19bbff86ull,
0x452898e5ac967ed6ull,
0x452e9bb510c4674dull,
0x452fcdde85c104b6ull,
0x4536a1bd2b174e89ull,
0x4537f4aa9aeb0fe8ull,
0x4538d87437fbdad5ull,
0x453923688c534465ull,
0x45393c7c49c64ac0ull,
0x453fccefde8aa971ull,
0x454493c030eaabe6ull,
0x45468362d8e757b4ull,
0x454b7923bb9676cdull,
0x4552e859a97b1729ull,
0x455a419881dbcc35ull,
0x455ab1658f76c3cfull,
0x4569fd3be69b7791ull,
0x45709ce59ccf4d9bull,
0x457306c1475c6265ull,
0x457320454dfaebf5ull,
0x45746031b9103d91ull,
0x45752491c671cbffull,
0x457632f06140989eull,
0x4579c491648a10b5ull,
0x457a3d14f1aaccdfull,
0x457d2d444b09397bull,
0x4580f8c1d20c1f02ull,
0x458d7c15941c3ca7ull,
0x458dcfc95f333b9dull,
0x459b09699fc2f449ull,
0x459bbb584ba7cdd3ull,
0x459d1a009e972fdcull,
0x459d50360c3d95e7ull,
0x45a14fa08391fb4cull,
0x45a642b1fa7b8712ull,
0x45a934ebb5192944ull,
0x45b202b629e66d5bull,
0x45b886be281d6274ull,
0x45ba592ba3496717ull,
0x45c10863e7c65312ull,
0x45c16a6fb111cf6dull,
0x45d0365f82b5351cull,
0x45d6339f3c060bd9ull,
0x45da9a37cc924041ull,
0x45dc0024588cfb68ull,
0x45dca09006175c4aull,
0x45dd42caae8cef98ull,
0x45dda0d10bfbe761ull,
0x45ea433b9515d058ull,
0x45ecbbac7435ba9eull,
0x45ecd92cc1828dd8ull,
0x45f6634c0d16f946ull,
0x45f88cbf227e1b07ull,
0x45f9937f4ab55fdcull,
0x45fbc8c4bdd7f3dfull,
0x45ffd4f71f9046e5ull,
0x4606e7414a5555c7ull,
0x460cf99bbd27c53full,
0x46129e3f043e74dcull,
0x4627a0f087fb1e22ull,
0x462b5b9af89f7572ull,
0x4631f6e35e000501ull,
0x4636767e36b63ae0ull,
0x46379cc8139f78e3ull,
0x463c1509aa9b8e11ull,
0x463c16dab62ffeebull,
0x464bbce4da43773bull,
0x464dc2c30f7d61afull,
0x465130c137e9cd35ull,
0x46516c40ccd119c8ull,
0x465f5f7ab848d816ull,
0x467aa8a6ea82488eull,
0x468371f458225846ull,
0x4683b9ed257ab817ull,
0x4684d8f3411117c2ull,
0x4688dd059b95f004ull,
0x4690dd7f648453b2ull,
0x469dfd05a576411full,
0x46a300904457af97ull,
0x46a371b6c319c239ull,
0x46a6ac2d17ff221dull,
0x46a97a891f951c9cull,
0x46aa35d7c71dda8cull,
0x46aa584432fa037aull,
0x46b7a91fc3637b05ull,
0x46c1c7da079f8ad9ull,
0x46c408a81d9d70e7ull,
0x46c5d2a83712a749ull,
0x46d1279959e540f6ull,
0x46d9f39358774631ull,
0x46df0ab3f8796c58ull,
0x46fd77af633e9d2full,
0x46ff17c288d3406cull,
0x46ff4fa372e332b2ull,
0x4700d88542291a55ull,
0x4707219bb6767654ull,
0x470bf3cf74f42d3full,
0x470edecddd57778cull,
0x4715c31ea6d1e57eull,
0x47168c5cf8921f90ull,
0x471e917134ab4070ull,
0x4721097266eebd4eull,
0x4743ebfc5cae7002ull,
0x4746348a105ecbefull,
0x47469fa324e089ddull,
0x474f972c264107c5ull,
0x475819ce24260dd5ull,
0x475d4325e24daea7ull,
0x47601a6925839a69ull,
0x4766f7cbdba852e3ull,
0x476e5a420ad0c314ull,
0x47764ee3f2dd8155ull,
0x4777c3b355ef5422ull,
0x477d8d7d75323aabull,
0x4781bf6b02049caaull,
0x4791acccab61b617ull,
0x479a3df44ec3b24full,
0x47a093af4583bb03ull,
0x47af4442ca7b5ae7ull,
0x47b1aa943a39e803ull,
0x47b2bf2f1438712full,
0x47b6c7995939b16bull,
0x47bc0110c5abd50cull,
0x47bc8a89432928f6ull,
0x47c29e2d7989d2daull,
0x47c4c2402ab33f9full,
0x47cfb28818184f8eull,
0x47d3b7df99f657abull,
0x47d9ce6f73b2054dull,
0x47db6924e2b07feaull,
0x47e47d4ccd630affull,
0x47e4ff3af22c2537ull,
0x47e69a938fcf75a6ull,
0x47f6a53ee34b3eb0ull,
0x47fbab892fb015c2ull,
0x47fd813dcba5c50eull,
0x47ff924373e86a28ull,
0x4802161b26a34e10ull,
0x48059ecf11190559ull,
0x4807bc78eff100daull,
0x48143b9461cabcedull,
0x48180855536b5263ull,
0x48185a7fa4f49a6bull,
0x483bd65ffa535f36ull,
0x4847e57c69787ae4ull,
0x4849e2015e0cdb6full,
0x4853f661ce63686cull,
0x4856ab73ffe40903ull,
0x4859a8a7c7108f97ull,
0x485ab7966318ae24ull,
0x485b1f636b68ca4bull,
0x485c0be8d1f75e29ull,
0x485cf56523f753f5ull,
0x485de86d167843bbull,
0x485fa365469111b3ull,
0x4868c50a0eb56e84ull,
0x4874ae797c70ed49ull,
0x4875ff97d82df707ull,
0x4877066665399abaull,
0x487b5e47f12a6f40ull,
0x487c43d1035008beull,
0x487c6ffa88492203ull,
0x488380e3a66d0f5cull,
0x4894229b47a65278ull,
0x489d10a70bd010f5ull,
0x489fcc8ec6c8d956ull,
0x48a7b1f6c8db9f22ull,
0x48aab7ce97e263ddull,
0x48ab294536ff6e47ull,
0x48b0735e727410a5ull,
0x48b2af1c3a06837bull,
0x48c0b0ac64af00d5ull,
0x48cecf4287ea3c87ull,
0x48d0821ca20ff039ull,
0x48eb2a6c91835de7ull,
0x48ee5c63eb741be5ull,
0x48effc83ccd59801ull,
0x48f56a9743c42ab2ull,
0x48ff0b8c29a0dcfbull,
0x48ff94e83189b4d3ull,
0x49000d7e0b71f819ull,
0x4905f464108a46adull,
0x490c8f6b5f25b214ull,
0x490d633fd5264956ull,
0x490d6c04b9bf9259ull,
0x49100c3f5171fe6aull,
0x4912b60f25d58294ull,
0x4916e02f265e4732ull,
0x49273e6987df2bdeull,
0x492978e235243ec2ull,
0x492cc907f33a3294ull,
0x492ff9600ffd1453ull,
0x493b5fca6dca438eull,
0x493ebe66c175e94aull,
0x49456d7186bdea26ull,
0x4946b798dcc60648ull,
0x4956322c21fa7283ull,
0x495e109f757393cfull,
0x495e3879d01cf461ull,
0x495f03c276b2ede0ull,
0x4962d60ddb98d57cull,
0x4968c4739c767191ull,
0x496cc433c29427caull,
0x49790cefc812efe6ull,
0x497a83dec3c039a4ull,
0x49827489754b0bbfull,
0x498772cb2e2563d0ull,
0x4987be8053bf28b6ull,
0x498f3665e245b0a5ull,
0x49911c240b3f5539ull,
0x4992bde7e5bce5e2ull,
0x4997a415b95a70b3ull,
0x49b2d866eaf7af08ull,
0x49bb27833d4ab4f0ull,
0x49bb6f818aff67faull,
0x49be9ef02e1847dbull,
0x49beeebbd16c954bull,
0x49bf19c9fa2df127ull,
0x49bfeec52076e583ull,
0x49c534b4b5ab5e7full,
0x49cb10034b38473dull,
0x49cfe4fcea3cfca0ull,
0x49d355a5e8befae7ull,
0x49d51c91c784641cull,
0x49d70cec2ec70535ull,
0x49de6814783f7f14ull,
0x49df3a178576118cull,
0x49e00478c5e78572ull,
0x49ebe36b61cda74full,
0x49ebe43bb420e63dull,
0x49f0da998581c0deull,
0x49f17aba105d9750ull,
0x49f38aaca086b836ull,
0x49f4954c8a3bd22full,
0x49f983cb7f971a7bull,
0x49fae8a24212eaa5ull,
0x49faf7ea3d24ed7eull,
0x4a1341f3fdd13d84ull,
0x4a150ea5323f499eull,
0x4a164f804fb1d3d1ull,
0x4a1f67ef47fdaed2ull,
0x4a242ef31f98ef38ull,
0x4a246557c13f2abcull,
0x4a269856e714d946ull,
0x4a2a2320ad1632c4ull,
0x4a2b61842909d89eull,
0x4a2bc4e4005ddb40ull,
0x4a2e551a26ed6e7eull,
0x4a353ff60c220253ull,
0x4a3f046060a8cdd9ull,
0x4a3fc3e1fbe4ff37ull,
0x4a4d9e7fe9d8a612ull,
0x4a4e5184bf8187f0ull,
0x4a5ae1171249bca0ull,
0x4a661503e83a4a8cull,
0x4a662e883b45fe01ull,
0x4a710fa7e3c649d7ull,
0x4a7c02bfdf994ae0ull,
0x4a834fb69981dcb9ull,
0x4a84cb5420e03b5bull,
0x4a8fc8b4152506aaull,
0x4a919c6a168216d7ull,
0x4a980a28f63bca6full,
0x4a988a981f7d263bull,
0x4aa3e0a957123a28ull,
0x4aab6a636efdae77ull,
0x4ab35daf19926dd1ull,
0x4ac2b0aa2125dbddull,
0x4ac9662761055c37ull,
0x4acb5b4365039333ull,
0x4acdba2cf2416da8ull,
0x4acfbb63d0281eceull,
0x4ad4c1995abb42edull,
0x4ad5c889451060cfull,
0x4ad9a3a923b8eb78ull,
0x4ada1b23a3f05aedull,
0x4ada50b8d94aa34cull,
0x4addf07a402215ecull,
0x4adf4260ff6bbe37ull,
0x4ae653d05a9f7156ull,
0x4ae65892e0b06a38ull,
0x4aed11566d88db72ull,
0x4aed11aedc11fa1eull,
0x4af52f0f7870c337ull,
0x4af9e8242c782803ull,
0x4afc15ed26d90851ull,
0x4afdc7f3c8e36981ull,
0x4afebfe7551c3518ull,
0x4b0043880357b0a4ull,
0x4b039ec2ee7ab5cbull,
0x4b042f007b8e457dull,
0x4b0fff0707a655c8ull,
0x4b101a46dee1dc5dull,
0x4b13413a5ef1ee2eull,
0x4b14d16891389180ull,
0x4b1bd528eed8d199ull,
0x4b1de86250051475ull,
0x4b20b8bc3c464815ull,
0x4b240a9eca0eb10bull,
0x4b24f444d5fc21e0ull,
0x4b27316d0e6080ffull,
0x4b30727f959efcbbull,
0x4b388a37285d4849ull,
0x4b38f114f0dd85b6ull,
0x4b3b5b86e7c3d4faull,
0x4b3eb3c479c9853cull,
0x4b4077f9d2177dceull,
0x4b540d842d076e6aull,
0x4b55afc6bc9c6825ull,
0x4b55b938f5c6f530ull,
0x4b56a482c55335d6ull,
0x4b572da0987edffcull,
0x4b5a07a9a2c6bc90ull,
0x4b5e48b42de8fb93ull,
0x4b5e90bd2f53eb13ull,
0x4b657ac9506b256bull,
0x4b6689ac54891a8aull,
0x4b66a82ba2d70481ull,
0x4b74324668c469f1ull,
0x4b75e8ecca02810cull,
0x4b76604945e956a1ull,
0x4b77153d63b9ec65ull,
0x4b7bcbb546c58569ull,
0x4b7dd5d13e4c8204ull,
0x4b8293fe74beb3eaull,
0x4b855ec6d30934e8ull,
0x4b85ad896da72eb6ull,
0x4b8ce1d59afd858aull,
0x4b8e4aef020d1dd6ull,
0x4b95f06677b9b571ull,
0x4ba28fd963a38135ull,
0x4ba5a4012383a567ull,
0x4baa28beb855a0d0ull,
0x4bad1acf57b4f635ull,
0x4bb058b557fe750cull,
0x4bb3430477b20652ull,
0x4bb501797e0ee2ddull,
0x4bba4ca3483f1b92ull,
0x4bbba7412ce67338ull,
0x4bbe70b15ab34defull,
0x4bc48c955fcf3f78ull,
0x4bcbf6527519ed69ull,
0x4bcdb0d8a9b30a36ull,
0x4bd45eea030412a3ull,
0x4bddae2b61abeed7ull,
0x4be3fc44ab07d868ull,
0x4be6c0f213987a24ull,
0x4be8bcb573450bb0ull,
0x4bef66ff323084c9ull,
0x4bf0a2a7c9da858eull,
0x4bf47359475b32c9ull,
0x4bf67ee542c4ce66ull,
0x4bf7760a1c5cda9cull,
0x4bfcc267a7db60f9ull,
0x4c03ca24b7e38f3dull,
0x4c0a8dc92e4484d8ull,
0x4c0eee2808b0db05ull,
0x4c1332995bded048ull,
0x4c1dc08bf1ced76eull,
0x4c1e232ec9bb59cbull,
0x4c26b99b8a3c7230ull,
0x4c37fee312c0f078ull,
0x4c38b3062abfe11dull,
0x4c3a8145c9f9d3e0ull,
0x4c3f6a02df3400a6ull,
0x4c479865af57d62dull,
0x4c51bde87c5ccff5ull,
0x4c5683bae2c7310eull,
0x4c57a4b5a138974bull,
0x4c694905e5cb55aaull,
0x4c69c889c995fc7dull,
0x4c6c3cf820540f5eull,
0x4c6cec38a841e8eeull,
0x4c6d7d6c12814e69ull,
0x4c6ef6cb17de4817ull,
0x4c78178dc2c25269ull,
0x4c841f2c53f3e274ull,
0x4c85e755085bd440ull,
0x4c893d667478a7b2ull,
0x4c8c83b9fc829ecaull,
0x4c8e05cdabcbcfcaull,
0x4c8f5eefca7c400cull,
0x4c919ddf5cc9eed1ull,
0x4c936feb88d50ca9ull,
0x4c990aab5287fe8bull,
0x4c99606ae86b32e7ull,
0x4c9a2251a13da805ull,
0x4c9c0c7e2ac90296ull,
0x4c9feb229bcb49f7ull,
0x4ca47228aab3348dull,
0x4ca7394dab88a9e7ull,
0x4caaa4a3258048b3ull,
0x4cb92dee29ef41b5ull,
0x4cbc26c44219ffe2ull,
0x4cbe1a8cdd34eafdull,
0x4cc8570ff38925a6ull,
0x4cccefc15915637eull,
0x4cd351a425fd5a47ull,
0x4ce55dfde2b082f7ull,
0x4ce5c91b89346fa2ull,
0x4ce6df5c1d3530cfull,
0x4ce8c852acadd193ull,
0x4ce9bcc14847b7e7ull,
0x4cef2c1921f06c6full,
0x4cf1462fedd9620dull,
0x4cfbea78a7baffd7ull,
0x4cfe5ee2e927ea3aull,
0x4cffbfd5db7f8d1bull,
0x4d0a7ea57ebaeafaull,
0x4d10909c764e45ddull,
0x4d1108224f97ed68ull,
0x4d22e9fa0cd57ce9ull,
0x4d25cb0fe0649215ull,
0x4d275c0bf8397a5cull,
0x4d2ac2ae9a39d646ull,
0x4d2fe5497d1021a6ull,
0x4d3262edaeb66b56ull,
0x4d394b0a181a043bull,
0x4d3c5a43ed112afeull,
0x4d4544fe2985163cull,
0x4d47167989c24de2ull,
0x4d4a37abbcf72e83ull,
0x4d51346876fec603ull,
0x4d514d2add01c285ull,
0x4d53fbc4db2914acull,
0x4d5ef5f7e9f4964full,
0x4d60633e68228e06ull,
0x4d625ed60a7cf7daull,
0x4d6aa8c90ecd9ffaull,
0x4d6b54f17e921c24ull,
0x4d6ca14a77bc0143ull,
0x4d6d337c89501720ull,
0x4d6df3941d76533aull,
0x4d72e2bdb0446f62ull,
0x4d79062db1c1f8d1ull,
0x4d79fb04b6da60feull,
0x4d8312c01d34ae93ull,
0x4d867f982f666ca7ull,
0x4d88407ac2018d34ull,
0x4d8a169b84acf4f1ull,
0x4d8b929cd64816f0ull,
0x4d8bd39e528ae552ull,
0x4d93ecffda5231bdull,
0x4d9dd58a700f6c8bull,
0x4da2acb8ecf634cdull,
0x4da3a0bc749e46cbull,
0x4dab4885e18d1be0ull,
0x4db77ee9bf4dad86ull,
0x4db8159e6520650eull,
0x4db882a4b40da13full,
0x4dc7089975c9c79aull,
0x4dc91525e43e6af9ull,
0x4dcc760c30bb180bull,
0x4dccde90e760be69ull,
0x4dcf02cd47685bebull,
0x4dd0061b36e3080eull,
0x4dd0261d600c2b9full,
0x4dd752d140667008ull,
0x4dd7f27fd77fa797ull,
0x4dde795c016b5558ull,
0x4ddec73e9355ca6full,
0x4de26a5361b462a4ull,
0x4de5348d74004ea0ull,
0x4debe1b578a0d1a7ull,
0x4e02d7a2ce316317ull,
0x4e030af549d827aeull,
0x4e0ab205883aa301ull,
0x4e0ea919d8e2d469ull,
0x4e1a07ad7f700c72ull,
0x4e1fc28caaaa74b1ull,
0x4e213c343a07e61bull,
0x4e25414f33bd5c01ull,
0x4e29ae097c7872fdull,
0x4e30f6037d08f485ull,
0x4e37e95178702bf7ull,
0x4e38c3f27789d843ull,
0x4e3a759aa19244deull,
0x4e42756733706dbcull,
0x4e523674342ee463ull,
0x4e641dba4fbe7231ull,
0x4e6ab4599f06efa2ull,
0x4e70ef3c3159bfc5ull,
0x4e81a9a222781144ull,
0x4e82e3af5288a542ull,
0x4e831efd46149441ull,
0x4e8b1cb47a1c0178ull,
0x4e922d2a18ffc39full,
0x4e9a59ddc1a46ebfull,
0x4ea55d01e98e5e90ull,
0x4ea5b4a0f0e8d42aull,
0x4ea65e001507a13full,
0x4ea80cb33cfc7313ull,
0x4eabc155a66371b1ull,
0x4eb6955deee0556full,
0x4ebd053fcc9cda4aull,
0x4ec714219539b9d8ull,
0x4ec733dfb4d5b65eull,
0x4ec85ce6a1195391ull,
0x4ed68661db8cf734ull,
0x4edc08ff8527507aull,
0x4edc1c714c377d53ull,
0x4ee56039f2825ffeull,
0x4ee649fd18efaecfull,
0x4eebdc0288b1095dull,
0x4eee20e4b18cdfd2ull,
0x4ef1884d2ac33309ull,
0x4efafd0f0e7da817ull,
0x4f00bc10e188ed33ull,
0x4f0382dc4e1168aaull,
0x4f108dcdf1aa08f2ull,
0x4f1341cf57961684ull,
0x4f1392b71a118bdbull,
0x4f1646dd0f58ee1aull,
0x4f16fcbeba240123ull,
0x4f193573770f812bull,
0x4f19e32a0d6510d8ull,
0x4f1f1630ef498f40ull,
0x4f22b7cf6d77742aull,
0x4f26e276dacb4806ull,
0x4f279784747e44edull,
0x4f330d90f855d6c3ull,
0x4f44900a68001016ull,
0x4f5c90ecfc771763ull,
0x4f5df7b2d37ffe77ull,
0x4f618036d82061fbull,
0x4f626da28a972fc4ull,
0x4f63932b2d309fc2ull,
0x4f64756250128893ull,
0x4f6493e3cc0e9b68ull,
0x4f6a06fd87a302a8ull,
0x4f6b5e520132e256ull,
0x4f6cd9f2ce2fa2b0ull,
0x4f72b5da37cc312full,
0x4f82ae90d895175dull,
0x4f83f9b3c674e1abull,
0x4f85087bbd6c35cdull,
0x4f86984a8862d5e1ull,
0x4f90b0d356103444ull,
0x4f97100183c4dc1dull,
0x4f984d3855d2a18aull,
0x4f997c848feaf134ull,
0x4fa3cc6e10251a4aull,
0x4fa44256879fe674ull,
0x4fa7d12fda6dcf3aull,
0x4faaf0907d7c7daeull,
0x4fae5271c6d20f56ull,
0x4fafe5229ba03988ull,
0x4fb00ea1245260e4ull,
0x4fb8934a4021451dull,
0x4fc1c4b5347ffdb1ull,
0x4fc212eab5966963ull,
0x4fc3644cd30660a1ull,
0x4fceb99792697946ull,
0x4fda2cf44dcd1773ull,
0x4fdaa8e2f5a1b355ull,
0x4fde072e472d090eull,
0x4fe1e58f878de865ull,
0x4fe3774c4d28bd4bull,
0x4fe44e233514c673ull,
0x4ff3bd9bf17656c5ull,
0x4ff9b6c1b1bd5d16ull,
0x4ffd59598c7dc45bull,
0x50028d53335aed97ull,
0x5006da720b4b3d0bull,
0x500b1aa78c642eb9ull,
0x500bbe64a7a70fe9ull,
0x501110a340fc2dc1ull,
0x50232c09ae10e7cfull,
0x5024fe33e149a481ull,
0x502e11bc4f791a05ull,
0x5033100fc106386cull,
0x50391d6b7edb855dull,
0x504734b6758f3cf5ull,
0x505100910b660dbdull,
0x50547f42430acbd7ull,
0x505a0754cf920aa5ull,
0x505cd4150915dfc4ull,
0x505db604ddd104acull,
0x5064914280a0cdfaull,
0x507913153ca6cc1dull,
0x507914aa9a1d2ae1ull,
0x50803e2a60cc2368ull,
0x50850aaa826577fcull,
0x508725d72e4a56afull,
0x508dacacf5bcdd82ull,
0x5092d66cebcd3ccdull,
0x50963c97e75dcd8aull,
0x509d83f483d83e3bull,
0x50a77f36432197c4ull,
0x50a98e0ac8cbae10ull,
0x50ab7872ff5be37dull,
0x50ae381ddbe7cbaeull,
0x50b07b374eea2d24ull,
0x50b864149eae2a0dull,
0x50b87085821b5088ull,
0x50bc64de704cdff9ull,
0x50cecf76d0e06636ull,
0x50d342be1f1e3abbull,
0x50d54bc8f2bfc2ddull,
0x50e0323765d6c8baull,
0x50e08a6b828540efull,
0x50e26f4805945308ull,
0x50e2e8851f31bb95ull,
0x50e6a6eda4a6c111ull,
0x50e78c8e60163ee0ull,
0x50e83cd17879faccull,
0x50ea51ff35dcfd9full,
0x50eb1a6c242e12f9ull,
0x50f30dfd018c774cull,
0x50f3333d4f0d148dull,
0x50f5bc08e0b7f9b5ull,
0x50feb7a944d9277dull,
0x5102b3f58b9914a3ull,
0x5106975f01d610c3ull,
0x51095c89a24b6603ull,
0x5110db6166a0ab5full,
0x5111fb32b0bf70b0ull,
0x51120dcf0fe7140full,
0x5117d89f3113a909ull,
0x5120a15e3642d982ull,
0x51285378f1355619ull,
0x513c3af2881adb92ull,
0x513c9b8c4ac58ca8ull,
0x5143b89b4b1a4dc0ull,
0x514814f9835d6ea9ull,
0x514a86f2b1862749ull,
0x5155977b2ce7c023ull,
0x5156e5b59c153ac0ull,
0x51581df539e7b467ull,
0x516247eb91219b7aull,
0x51668c524fa3d49eull,
0x516a346e2108f993ull,
0x516bbb8b9168ee02ull,
0x516d43728b973e5full,
0x517171373b1f7818ull,
0x5174c116f3152e56ull,
0x5176316fa8168c96ull,
0x5177a3949f849257ull,
0x5177f56c58f7d1c9ull,
0x517ab61f9fe3cdbcull,
0x5182abe2b0b8bc17ull,
0x5186864206bc9c26ull,
0x5189cd00e7bb774cull,
0x5192c680d0d2156eull,
0x519941208cab399full,
0x519b85b9c2a0de4bull,
0x519e0c146ed35873ull,
0x51a8fe6381e0f0b0ull,
0x51b81b6176dba2b8ull,
0x51b9eed4cc9b1cf8ull,
0x51bbf26fc13b9866ull,
0x51c09f0a909ef9eeull,
0x51c3e67fae61ed23ull,
0x51c833d9195f8826ull,
0x51ca8a00139026d0ull,
0x51ccbcf148f48cdaull,
0x51cd611fd9a37cf4ull,
0x51ce305f6b45acaaull,
0x51d12bd38df7caa7ull,
0x51d130964db14b1dull,
0x51d2ea688a78fc14ull,
0x51dafd2231e08653ull,
0x51dc4d540ef8d4a9ull,
0x51e46f12b53c8e57ull,
0x51ea569b619c6015ull,
0x51eef2487762fc6cull,
0x520054b251d00909ull,
0x520afd6c51259ddaull,
0x520b80e06f6fefe4ull,
0x520ef15a371fc168ull,
0x52142ce891c8b1e3ull,
0x5216ee5f32bcdaabull,
0x521a07b5656a85a5ull,
0x521d6f8842692685ull,
0x521d9a5672037925ull,
0x521eb28a9d3d3c81ull,
0x522090be53410ce4ull,
0x5221d775b1b943a1ull,
0x52283cf1eae373ccull,
0x5229a9b380e02677ull,
0x5234b6f14453560eull,
0x5234c0870a3c3d88ull,
0x52370b76a7b141abull,
0x52399cc884c0543bull,
0x5240ddaf99eacd4dull,
0x5241617cbf970b0cull,
0x524d54aa07153222ull,
0x5250f6dd178804e0ull,
0x525894cc8d0feea3ull,
0x525c83a9f303e33bull,
0x525cfa626c63a354ull,
0x526222818f7007c9ull,
0x5263bccdd272ad66ull,
0x526e6a254abde949ull,
0x52723d33985c5152ull,
0x527a6de15f2da55full,
0x527ac400b5d9cb8cull,
0x528a85cff03399a4ull,
0x528b66af4f3b4f7bull,
0x528c2dc060bc48a2ull,
0x528c51917370790full,
0x528f922f723190c5ull,
0x529ca201782a8cb8ull,
0x529f0cda74455f9full,
0x52a0b25e66ab5b88ull,
0x52a8dc12af8d0d55ull,
0x52abf840a956c531ull,
0x52ac13475290a040ull,
0x52ac9f163b7e959full,
0x52acc80659d0845aull,
0x52b54e79f4f2d094ull,
0x52b92a94d6b14122ull,
0x52b95bb951162914ull,
0x52bd06ca24a06b5bull,
0x52c1681376bb507full,
0x52c4eb074435dfe7ull,
0x52cbd6cfb3c3cdb3ull,
0x52d04a438e1afc25ull,
0x52d4d7c0378d0e89ull,
0x52daabf6f587f213ull,
0x52e2af7701454ca2ull,
0x52e6e95291ddb627ull,
0x52e6f6bd9dfc2adbull,
0x52ea2177086739feull,
0x53071386b719e905ull,
0x5308be3c616a07d3ull,
0x530ae32bfbbcd24aull,
0x530f7d3676b3b4beull,
0x5314b2a49c487467ull,
0x53184b88ce6ba051ull,
0x5324fb72842fd18eull,
0x5329434f9969527eull,
0x532e3a6ba3fb27afull,
0x5330bc3f67ff77eeull,
0x5331e09312c9c441ull,
0x53383c5da2570b51ull,
0x5339c93bf7b6d4a4ull,
0x533a09278f68c860ull,
0x533a5ac7cf19f3f2ull,
0x533e5c9372f51006ull,
0x533fc0c20b14d837ull,
0x5340956abb6b5e5cull,
0x5342edad745c06a4ull,
0x534418beed0c93a4ull,
0x53469b0616efbdb6ull,
0x534b1b362c6a0040ull,
0x534fa62283eaf1a6ull,
0x53517c769deeae2aull,
0x535c22570fffe604ull,
0x535d6b3e412f7addull,
0x535daea1811b1f7eull,
0x53602f5fb95afc1eull,
0x5362630138349b02ull,
0x536eeea407f177d0ull,
0x5370180c8b40e78dull,
0x537baffa9dab12acull,
0x537be3085ce6f400ull,
0x5389f55551f36241ull,
0x5390674e6ee67ce8ull,
0x53987b360d6423a8ull,
0x53a91b7fc6499d85ull,
0x53aef38a50fb2f43ull,
0x53b2760abaa533f8ull,
0x53b9807a44d9ed39ull,
0x53bc473d3115b0eaull,
0x53bd40d42179306eull,
0x53c0b6885ffe42fdull,
0x53cbb21f5c35ca1full,
0x53d06b84d8460b95ull,
0x53d30f8822f0b058ull,
0x53d53688be5728baull,
0x53d5d41c9d54bb81ull,
0x53de3d8f6f488c35ull,
0x53deba359a922ab7ull,
0x53f757046a36f240ull,
0x53fd40ef657ca2c4ull,
0x540057c11bc42827ull,
0x540400bd7c589ae7ull,
0x540423fbe2e0cf77ull,
0x540c778da28014f0ull,
0x5410ef40b9dbe1a4ull,
0x5412bfd82317e59full,
0x5417efc5563efea2ull,
0x541a54f0c7be1529ull,
0x541e8e63dfc36106ull,
0x5420352563bd3ce6ull,
0x5427b6094df66a83ull,
0x5428e87361ffdbeeull,
0x542b6046ea6e7949ull,
0x542f320376819896ull,
0x5435faaf05896945ull,
0x5438b04b000cebd4ull,
0x543c818c5d0d4852ull,
0x5445c962ecad4fdaull,
0x544e5b9157367272ull,
0x5457d8f5bd23c95bull,
0x545ada30c38495e4ull,
0x5465128ac1b78b19ull,
0x54655834fc6f7316ull,
0x54679e31f91d69deull,
0x5470a48decc6afb0ull,
0x54714dc7be4fd964ull,
0x547ad4f6dfefc742ull,
0x5480560ce8d02605ull,
0x5486603a1156c543ull,
0x5487bd82ad4c26f6ull,
0x5487f8f24d0965b9ull,
0x5489177ce3fcb12cull,
0x548fa41d5eb08015ull,
0x549084c5c0ffcad4ull,
0x5492063eab189970ull,
0x54974c2def1ba7c7ull,
0x549a701f0a633741ull,
0x549f36fda4509cd2ull,
0x54a0cdab99e28247ull,
0x54a331560b83bda4ull,
0x54a566651ac43b2aull,
0x54bc514bb801ba05ull,
0x54c97a5ced9cdc3bull,
0x54cb5a132a59bde7ull,
0x54ce5d954c16fbd9ull,
0x54ce7df14e63b33aull,
0x54d2a65715ad1c44ull,
0x54d6a7ad6acafda9ull,
0x54e15a7f3906f227ull,
0x54e7975f7245b3caull,
0x54e9a1b686195d4eull,
0x54ea38076134a413ull,
0x54f22246f0c9b202ull,
0x54f6a66460afedecull,
0x54fa68e752578cf1ull,
0x54fc3f93f3955f4bull,
0x54fd27b9262be89aull,
0x550507c5fc2f8a45ull,
0x550aea57b03572beull,
0x55156fbb36a52b6bull,
0x551acb6da12e555bull,
0x551b31d286d99cb4ull,
0x5521f1ffdfd842d5ull,
0x5522fad12ef94452ull,
0x552aee03fccf7e76ull,
0x552b7dd0c14d6d81ull,
0x552d64892acc84edull,
0x552dbea2711e099cull,
0x5530a2ce0f0dac9full,
0x5531b15e78460492ull,
0x55369741ec9b0c51ull,
0x553d3c597dc1d39eull,
0x55486978339868aeull,
0x55513486c38d6b92ull,
0x5555e6c8dfaaef23ull,
0x555e8a9ff19543baull,
0x5561fb165a3e1152ull,
0x556bccba4eb0a99aull,
0x55749a536f3a3c85ull,
0x557763e40c6585d0ull,
0x5579250e5bf34657ull,
0x557ec8193452ea32ull,
0x55841304d6a49a35ull,
0x5589923c12989d46ull,
0x5589a85be142d475ull,
0x558e0c851b6e75bbull,
0x5595b35ca68b741bull,
0x559a6ca4b600152full,
0x559f9b90c9374d96ull,
0x55a133afe15f9d1bull,
0x55a608b20ab49ddaull,
0x55a723b712a09e43ull,
0x55ad2d055d26ef4full,
0x55af0522d070970full,
0x55b1762832af4d4aull,
0x55b9ded7a643b6a5ull,
0x55bb74bb4a15a5c2ull,
0x55c20b92969dc4f2ull,
0x55c4b285c4ea8ef8ull,
0x55cd98fd59e988a5ull,
0x55da58053e28f76cull,
0x55e412773c06ecdcull,
0x55e62ba93220c751ull,
0x55e6666b0d0d661bull,
0x55e6bc1164bf9b28ull,
0x55e9e8a6299e267cull,
0x55f4eb4908ff5fc1ull,
0x55f5187677308827ull,
0x55f53c9ce8dd9d4aull,
0x55f9a9d0c9bd6337ull,
0x55fc040f4cc82ea9ull,
0x560122ff0b3bf678ull,
0x560824f6cd57cb6aull,
0x560c1b168df7a45dull,
0x560e271a0eae1adaull,
0x5610c40597642a31ull,
0x56160ed637af8cfaull,
0x56171d492e4397c4ull,
0x5618a5c0ba0f3f97ull,
0x561af4e267ed9346ull,
0x561c707867d1f441ull,
0x562266dc36053b0full,
0x562bdb06058b2be3ull,
0x5638002127a34ec6ull,
0x56380a09d3a2b069ull,
0x563996e41c04505aull,
0x563ae34eea1a9282ull,
0x563d81186ad0df31ull,
0x564477fe9a3339fdull,
0x564b40eece21fedcull,
0x564cd6bd7d5989c4ull,
0x564ec9eb14410fb0ull,
0x564f494161e6e80eull,
0x566286c2159fb246ull,
0x56663548477d8903ull,
0x566cbbcd6c98c1cdull,
0x56747efe2649e3b8ull,
0x5675ab5ccb433510ull,
0x56797083b47eed8cull,
0x5682d23ff4b6fd8dull,
0x568535f64cd73fc8ull,
0x568573c89ea7a86cull,
0x568582ba4f2de688ull,
0x56894efeccb6dbd5ull,
0x568faaaa84580d03ull,
0x569799b1c8c22caeull,
0x569b9aa991ef98b4ull,
0x56a4a9cce5631600ull,
0x56a70c9ceedb5976ull,
0x56a999a4ed223aaeull,
0x56accb2fc6d900d6ull,
0x56ae4745ccb1e8d1ull,
0x56c015cefd846fa2ull,
0x56c51bd3202c242full,
0x56cbb7b4c98a737dull,
0x56cebff48742dacfull,
0x56d420127efbf18dull,
0x56e1ed7bb103412bull,
0x56e60392e254c959ull,
0x56e9f884b1b4ac9cull,
0x56ed553a79cc14b3ull,
0x56ef02a823a84490ull,
0x56ef2eb4ce5e045dull,
0x56f0b03faa66c156ull,
0x56f52db1bb4847fbull,
0x56fbb0fd8722c1d5ull,
0x56fdf12be0045402ull,
0x5702d50763309426ull,
0x571399bc133a68efull,
0x5718becdb8885fcfull,
0x571ad461da1a5660ull,
0x571b41a4b363b904ull,
0x57207670cca00d91ull,
0x5720df9dae1dd01full,
0x572149487e69e3eeull,
0x5723d1532c9d1dbfull,
0x5726576159a62048ull,
0x5729a79a7d46aa4cull,
0x572aea4b5b23a896ull,
0x572dd8aba779a6bcull,
0x572e267b0f058f45ull,
0x57364477fe0db58bull,
0x573758b652c98c6cull,
0x5738745df66d7e25ull,
0x573bc4be7d2caebdull,
0x5745aa8964b136adull,
0x57485249830e59d5ull,
0x5749a0ba33eb76f9ull,
0x574fa57f4dc750c6ull,
0x57616099278886b2ull,
0x57697f16cc9d7eeeull,
0x57738227aed0e460ull,
0x5776b84d92cff674ull,
0x5778a1041c1371e4ull,
0x578717174d567414ull,
0x5787bd6e2f8cdec3ull,
0x57897994d01c7586ull,
0x578d9af5c8e17f05ull,
0x578e730efb125145ull,
0x578f1d443b7df933ull,
0x57925c983fa6cefdull,
0x57927c78b5d87a4eull,
0x5798502ae8e038d1ull,
0x579bea628e0db1c8ull,
0x579c8d9677f95bc2ull,
0x57a3d43728bcefc7ull,
0x57a3d72edb18b139ull,
0x57a53cd83153c82aull,
0x57a746a05341ab73ull,
0x57a7a2d8320d70b8ull,
0x57a914932d085a64ull,
0x57b281834638d80dull,
0x57ba6e09b8945a94ull,
0x57baffc121990c9full,
0x57c49db297ddbeb8ull,
0x57c518975a6af141ull,
0x57da9412a6b10becull,
0x57df92ab8b6b5087ull,
0x57e19667a320879full,
0x57e2ee313969a4b1ull,
0x57e86a47121d77e6ull,
0x57ef05d7a636c5efull,
0x57f1a1028cf0f383ull,
0x57fc7035591cab17ull,
0x58008576049ba1cfull,
0x580769bccc658d2cull,
0x580d60e571d7872bull,
0x58107211ca13081eull,
0x581a1a6b995eb684ull,
0x581b32a9b3bd5a55ull,
0x581fa08df629d75aull,
0x5823ae4599e7f99full,
0x58295a0a34fb43adull,
0x5830d9700d2cfbf9ull,
0x5831921860453958ull,
0x5832fbf3ef084ad7ull,
0x583891493951104dull,
0x5838b5c911b940bbull,
0x583a4a85debc33f8ull,
0x583e745c851176f2ull,
0x584363a8f015474aull,
0x5844122b8fab6ab2ull,
0x584c8cc3ebae9d97ull,
0x584df4ba5bc2d971ull,
0x5852bbe4994475fbull,
0x5859b18c1af0495cull,
0x585b2ecd3b7dfac4ull,
0x5869006a87c7760dull,
0x586d6552d2cbdbe6ull,
0x586fe859ad1ba581ull,
0x58751a5252a2bbe5ull,
0x58757d563a7edb98ull,
0x587a6f7926bf87b5ull,
0x587de6d652ea684aull,
0x5884e50d2f1e8f42ull,
0x58868b58df313fedull,
0x588b40cea272fd94ull,
0x589ad181902474cfull,
0x589b28dec3ae0326ull,
0x58a5cfa2d1695742ull,
0x58a97fc3d011864eull,
0x58ba3d083ea10891ull,
0x58be5cb5abe025c9ull,
0x58c10a46fdc222afull,
0x58cbfca90ed5a907ull,
0x58d4d186f2fba0edull,
0x58d6ef26ab2a7ea5ull,
0x58dd2df28e6e0dc6ull,
0x58f2ca7061358f95ull,
0x58f2f2ebea8b6da6ull,
0x58f3496c56780b07ull,
0x58f97cf2ed26ed68ull,
0x58fad4dae3e6dbc8ull,
0x59067b37bf60e093ull,
0x590b58f32e1042c1ull,
0x590cc2db92f65238ull,
0x59166bf88d9730a6ull,
0x59198aab160c2d83ull,
0x5924d59b5f90417full,
0x5929c6c7659f5729ull,
0x592bfdd25a098fd7ull,
0x5933bf56cc41c20dull,
0x593b339008feb1d5ull,
0x593deaa1c7cc9439ull,
0x5943238eab600ba3ull,
0x59467290d8d3b637ull,
0x5947762c6d1186f5ull,
0x594853f778dc2ab8ull,
0x5952f2c370e375edull,
0x595302b89f1aceafull,
0x5957ac8af1a7b61full,
0x595a81b5e799f9f3ull,
0x5963a7da31fd7c8aull,
0x5964d49c36677d55ull,
0x5970aff7fb24ff73ull,
0x5975761f522e9ac2ull,
0x597a8089e68707eeull,
0x597bf6feec70b21dull,
0x59808be8af28035aull,
0x59828006a4422d1full,
0x598b3bf9ae977310ull,
0x598da9831c743631ull,
0x5990a46c9df216f5ull,
0x5991bfa6e13206a0ull,
0x599a02935bff55b7ull,
0x59a18770caa5d9b9ull,
0x59a43648d4f2b319ull,
0x59a5f4435eea7b81ull,
0x59a60d218f6f958dull,
0x59a6b69eff449981ull,
0x59b3b2f7333e7bd7ull,
0x59b92ff7fa6882ebull,
0x59b9f2fd57d1a1fcull,
0x59ba4ce598bd2c5cull,
0x59c137dcc3734cf4ull,
0x59c6a1b70fd4d1f8ull,
0x59db1a63390c0c18ull,
0x59dc4b1a8bab8abcull,
0x59ddd9e4649a5b6bull,
0x59f4df8714c17ce2ull,
0x59f80be668864560ull,
0x59fd3263506a57dfull,
0x59ff771ed718926eull,
0x5a02e340e1380ac6ull,
0x5a03ce45da91b8a3ull,
0x5a053cbd2a8cf1c4ull,
0x5a055406a2677ebeull,
0x5a0dd5c1b8ba2852ull,
0x5a14573bd27dc6feull,
0x5a1570be4231e3d7ull,
0x5a15f1e2837e85b0ull,
0x5a162fecfc7a6815ull,
0x5a1a88f96020fd89ull,
0x5a1bfd188f14c2ccull,
0x5a208ad9db44132bull,
0x5a2552044e35920full,
0x5a25bc9613aa8ed1ull,
0x5a278dc6ff743de1ull,
0x5a2a1b252ea5040full,
0x5a306520cb4e62e8ull,
0x5a32546a0caa095cull,
0x5a35756e02dc5600ull,
0x5a37ebdd9822fb71ull,
0x5a43da889bf9a02eull,
0x5a48346f4fbff5c6ull,
0x5a53ec3f75810e2full,
0x5a5886235e7b1483ull,
0x5a5d22c7a0cc0baaull,
0x5a6b5f99b715f277ull,
0x5a6e63a35a9fd0d8ull,
0x5a71ad449d9c8e7full,
0x5a789bb6bc3176a7ull,
0x5a7e4e5360fb5415ull,
0x5a7fa53853944054ull,
0x5a80846f436674daull,
0x5a98907a02ee30e3ull,
0x5aa39217d2bf21f3ull,
0x5aa5c8b308c32e16ull,
0x5aa9ebf215557d8aull,
0x5aaba46703e00f20ull,
0x5aac69d80110ae7bull,
0x5aaec1f62edb7a9bull,
0x5ab024c044b31dacull,
0x5ab6df82ee457622ull,
0x5abacfd5b6783c6cull,
0x5abbcac80c2daad7ull,
0x5ac7cc84d6953948ull,
0x5ac91ebb96fc235aull,
0x5ad656aade144fbdull,
0x5add19b3aebdf257ull,
0x5ae0fae881447812ull,
0x5ae25e8de6e8c86eull,
0x5ae65981b7044329ull,
0x5ae9a340dff3b770ull,
0x5af41f5807a7e25eull,
0x5af459437c7cd2c7ull,
0x5b00acc12c64950aull,
0x5b030c88ba4fe1faull,
0x5b05882a1e10f4d1ull,
0x5b0fe9d4cafc913cull,
0x5b153201dbed20b0ull,
0x5b19ed7b9585f128ull,
0x5b1b7b60423e1a96ull,
0x5b1b7e5fdf1f3569ull,
0x5b1e1660f37187e7ull,
0x5b20272c66c319afull,
0x5b257b85fb57c995ull,
0x5b31824135bcd338ull,
0x5b31b67b89ccb5b6ull,
0x5b36cba8d1ab2469ull,
0x5b37106c378e1012ull,
0x5b3f671f2a02a8faull,
0x5b43c416ed0466f2ull,
0x5b46f457adac7b0full,
0x5b4a0b6d6c4ebb79ull,
0x5b53f82c5f5448c0ull,
0x5b60239234e52ec9ull,
0x5b611d7a2c5c2d54ull,
0x5b65fd8f4b093219ull,
0x5b683fabf92a7a78ull,
0x5b68ee9c6435aaf9ull,
0x5b6d8a83ad48cbccull,
0x5b6f315f305957beull,
0x5b7016b923ab09e7ull,
0x5b70a1e9f8203807ull,
0x5b7565c74459b44eull,
0x5b8408b094f821a5ull,
0x5b87ce2d461370f0ull,
0x5b8cf810813128daull,
0x5b946efa602f29acull,
0x5b98290f026d0406ull,
0x5b9918d54f5cdc6dull,
0x5b9957d67369dd0dull,
0x5b9c3a0bdc008ebbull,
0x5ba075eec6dee1f5ull,
0x5ba2bb5120a990e5ull,
0x5ba4352e7453ac76ull,
0x5bae125ba1cc9619ull,
0x5bb200f8f214dcb0ull,
0x5bb34592c362e1d9ull,
0x5bb444149ce5922dull,
0x5bbe384d5b00fafbull,
0x5bc3a83aebe0884full,
0x5bc81659e376397full,
0x5bce9d091c3c9b66ull,
0x5bd3fb7b7264898aull,
0x5bd4077865a0aed0ull,
0x5bd7bd09322210f6ull,
0x5be0936106e1a3cfull,
0x5be2a636f8a755e9ull,
0x5be35873acd77961ull,
0x5be6eb01bff2949dull,
0x5be704109a948b57ull,
0x5beccc7c113dc708ull,
0x5bfb47c811132868ull,
0x5bfcb4e2bfe04e0cull,
0x5c018bfc6b230ee5ull,
0x5c0c11de98568b6aull,
0x5c106bcaa1cce0d9ull,
0x5c14445b95ed91eaull,
0x5c173d32a8d61ad5ull,
0x5c237bb42203ea9bull,
0x5c2585c025e6970full,
0x5c28f2a0ab356506ull,
0x5c2a1661781b2c3dull,
0x5c33ed91f8ee3960ull,
0x5c35923b13329540ull,
0x5c3a7d64559e7d61ull,
0x5c44457d86bdd922ull,
0x5c45e1be915a337dull,
0x5c479e6c79ed8a49ull,
0x5c48a77ef066dbb0ull,
0x5c4d22567a1402feull,
0x5c518d54042b375bull,
0x5c526a69926b104bull,
0x5c5d42b93cecc724ull,
0x5c5de1a4d3f54567ull,
0x5c673425a5382e85ull,
0x5c686d4338077eedull,
0x5c6fe22df20f4499ull,
0x5c72b2ab4fa56e53ull,
0x5c7410e58f68aae4ull,
0x5c7e6b86979e3970ull,
0x5c80a44e2a901839ull,
0x5c8b133ebd5d2a8cull,
0x5c8d5f1fcb5d1705ull,
0x5c9e3004260c1ab9ull,
0x5ca3ac4d56ee7f67ull,
0x5ca6e88770225848ull,
0x5ca7751dc24a5fabull,
0x5cac6c8a21bd2781ull,
0x5cb8b8448da2a863ull,
0x5cba2d4dcd825a04ull,
0x5cbca428f39118ddull,
0x5cbf79ffc6d6fabeull,
0x5ccaaedb5d7ca00full,
0x5ccd4d4cfe94266full,
0x5cd0991da31c0e8aull,
0x5cd4fb80bb7c6d9dull,
0x5cd5d06e0c71f24aull,
0x5cdf7dc419728911ull,
0x5ce0f1989f57a3d6ull,
0x5ce8d9b13ce9e8a9ull,
0x5ce9cb2504dc5f51ull,
0x5ceda476f1710c46ull,
0x5cee1367e7aefdddull,
0x5cf31ce0dfb68a79ull,
0x5cf6ed33604a7befull,
0x5cfc98069882f962ull,
0x5d0234e0e79d358dull,
0x5d0a2925f7d3fed5ull,
0x5d0fb8888e571a34ull,
0x5d1fa321c29ddac3ull,
0x5d219a84bca68c4full,
0x5d22e8c530ed76c1ull,
0x5d28e3cb56f76f3cull,
0x5d292b420e7b825bull,
0x5d29b57320288127ull,
0x5d2f3ab6012f78fcull,
0x5d2f847ef4c16a74ull,
0x5d3161ed8b9e17b8ull,
0x5d3b693b59a616c9ull,
0x5d41b09f4b529351ull,
0x5d4addc8fee93a3cull,
0x5d4b24a839cda2a5ull,
0x5d4f3aa3a63ad256ull,
0x5d552deb491a33d6ull,
0x5d5650fa002dc1b2ull,
0x5d5913242ade6ca3ull,
0x5d5a38c75dc5af3aull,
0x5d633e7689d18153ull,
0x5d696b947908cb7bull,
0x5d6d4acda65a7bf5ull,
0x5d6d8803b72ed7deull,
0x5d6dfd0673df8448ull,
0x5d77f8ede0eb66f4ull,
0x5d7c5717ae755ba2ull,
0x5d7d9937b54d3f34ull,
0x5d93abc2c29b8fb8ull,
0x5d9528fa021a3c76ull,
0x5d957eaf4fe4a921ull,
0x5d971bfeba1c02d5ull,
0x5da435937ef22d39ull,
0x5da801d5928e9064ull,
0x5da87fda729f5615ull,
0x5daa26b6708345afull,
0x5dacc5e976cf7366ull,
0x5dae9b0da811d874ull,
0x5db75356b63a0a45ull,
0x5dc15520ad1d7e59ull,
0x5dc21cdc4d418331ull,
0x5dc6bc75895913a0ull,
0x5dc6f59c4afe8e18ull,
0x5dc7c78f05714364ull,
0x5dcaaedcb374204bull,
0x5dcdd99084688aa3ull,
0x5dcde6d6de0f9857ull,
0x5dd075ad93157423ull,
0x5dd533463cc3f22aull,
0x5dd5c29760f5c472ull,
0x5dd7c5c82d05d760ull,
0x5dd94b754a872a08ull,
0x5ddd33e6653dc72bull,
0x5dde0325505bed9bull,
0x5de1206fee10f864ull,
0x5de1da35e9271e94ull,
0x5de9a1f06266735eull,
0x5df4cdac1ec29789ull,
0x5df877ac1005624cull,
0x5df93113ea0ecccdull,
0x5dfdd5dba19f0c45ull,
0x5e01c8e3d640aa67ull,
0x5e084ed68493f789ull,
0x5e0b5241cb39cbd9ull,
0x5e0f9bc62669ccedull,
0x5e122d4d6dcf6393ull,
0x5e153bd2127bc113ull,
0x5e1d9ccc9076d981ull,
0x5e22a0f9b760758eull,
0x5e2e3c04d8df2ec8ull,
0x5e38c82858a022f4ull,
0x5e441adb5d5a6fc6ull,
0x5e447d6f98cbed0bull,
0x5e4c065222d09a7cull,
0x5e4f9b55bbf05fd1ull,
0x5e50b3e601587fc2ull,
0x5e5349b260522cfdull,
0x5e5d407f31c6ad11ull,
0x5e654f77a1738f7dull,
0x5e6575724c8d687eull,
0x5e6de5a4e20991b6ull,
0x5e71105825469fedull,
0x5e7438c94b1d3da7ull,
0x5e7b266cfe620081ull,
0x5e7c0c75fed0d11bull,
0x5e7e659474b530a0ull,
0x5e80dafbe8a59a68ull,
0x5e8488ca012a4cadull,
0x5e99f8bac81e41ddull,
0x5eac6d7fa58a620dull,
0x5eb7ef1c3e43119cull,
0x5eba73daa615d540ull,
0x5ebb71b9242d78f8ull,
0x5ec4578ba89d65eaull,
0x5ec493ae9af1b48eull,
0x5ec6eeab016c1c39ull,
0x5ec839862f3942d7ull,
0x5ecb55a2a9c1a490ull,
0x5ece18ab4426f4ccull,
0x5ed47369812924e4ull,
0x5ee1e2e9734a8730ull,
0x5ee38b94112401adull,
0x5eeb800a1428e783ull,
0x5eec28d8f424171cull,
0x5eee198d017a4a37ull,
0x5ef19c2f7fe68101ull,
0x5ef5d4e8137b7d81ull,
0x5efa36f391f6a07aull,
0x5f05407961729312ull,
0x5f082cfb624ba1a6ull,
0x5f0b8fabecc5ffadull,
0x5f0d551c2841c510ull,
0x5f0e3aa39e103b5dull,
0x5f0e8f553a2134e8ull,
0x5f102c3c24371c39ull,
0x5f1284ae7521aacbull,
0x5f146c1dbf18d763ull,
0x5f18437d075c5df0ull,
0x5f1892b9ba5dd149ull,
0x5f1dd0702a2ecee1ull,
0x5f2383123a8164feull,
0x5f271e03ffa79b59ull,
0x5f31eb6b8d9f573dull,
0x5f378c54db6e191bull,
0x5f3d300f8e6cec82ull,
0x5f3f01797ac8e1d2ull,
0x5f552eb8d4ece46aull,
0x5f5556c0daf4894cull,
0x5f578b8a7ebf3feaull,
0x5f57ac9c75520376ull,
0x5f6589cdfa02a990ull,
0x5f6723a66b55b5bfull,
0x5f77638920f2f5a7ull,
0x5f7c024ea5ee3c35ull,
0x5f7c13f4c8f218e4ull,
0x5f81dea5d94d9c58ull,
0x5f8523c2ecffdecfull,
0x5f896c681a5ebd74ull,
0x5f8c758896e422c8ull,
0x5f8fa75df3ca2c6cull,
0x5f94389cc98ba962ull,
0x5f94917e9858b820ull,
0x5f97d468ef257d9bull,
0x5f9ecc3e9ee861c7ull,
0x5f9f411a5d9b38b8ull,
0x5fad6ce9fd3a73e7ull,
0x5fb381371742991dull,
0x5fb4bcc601f78b08ull,
0x5fb610d14d7a5748ull,
0x5fb6c71d11c9324aull,
0x5fbce2278a1a6b6eull,
0x5fc0e30537f15d63ull,
0x5fc36242c3610625ull,
0x5fc362689e7cb698ull,
0x5fc7b5745082f24eull,
0x5fd9e2a6cd0c9b20ull,
0x5fdf6cd0f5463585ull,
0x5fe1620af335045full,
0x5fe9052cf8f13a8aull,
0x5fe9ddc9477dfe55ull,
0x5ff1724f16b33967ull,
0x5ff382b56b977f0eull,
0x5ff5dd8228c1a71eull,
0x5ff69d4ee34cf6f1ull,
0x5ff967a55b2c80a9ull,
0x5ffbf082a22f77e2ull,
0x600223af85e76376ull,
0x6004270286fcb96full,
0x600a730c8e5cc538ull,
0x600b2bcdc8710392ull,
0x600d769a5f4d4548ull,
0x600dc45e04eab7abull,
0x601359f395f09391ull,
0x601d268c5d50a0b9ull,
0x6021571978b7cce5ull,
0x6022741fc0dc061eull,
0x6025ef23f404334bull,
0x6035969f5f536c8full,
0x6035f6ec5edd0deeull,
0x60364510298299d5ull,
0x603aa874d98301a9ull,
0x603c7454773681b2ull,
0x603e250fd57bc276ull,
0x603e79e304898dd1ull,
0x603ea468d795f4f0ull,
0x6041c61158d88d17ull,
0x60432fe9ffd0b8bbull,
0x604565b1a8b17c29ull,
0x6047c23da7066a5dull,
0x60509b9303219854ull,
0x60522a7769a8bb8cull,
0x60635c9efe9a835bull,
0x6063ee832ae51396ull,
0x606749e4ef1b290eull,
0x606dbdcf42ecab90ull,
0x607f1363351c6d14ull,
0x6084517b78a7affdull,
0x608f6bc1b3814ddcull,
0x608f7a43f1d2a6faull,
0x6091dc44f4521e40ull,
0x6092482ac368f8ecull,
0x6092dbfaaaddbc25ull,
0x609582f52d50658bull,
0x60993868fc2bb543ull,
0x609f79c515941f20ull,
0x60a01d539594021full,
0x60a0e6311c879963ull,
0x60a943bad398b8d2ull,
0x60abad43fc669a54ull,
0x60b4e99631570724ull,
0x60b585bd0ed7183eull,
0x60b991a52a415059ull,
0x60bd8d8abbd9d8a7ull,
0x60c0ce09b16dac02ull,
0x60d01007d9c9db88ull,
0x60d3a6a82a356bceull,
0x60d5c5f2f374ec84ull,
0x60d76f94353601e5ull,
0x60d9f70444c988e5ull,
0x60e7c0830281411aull,
0x60e95e35ecc797acull,
0x60e99fdd8b2029b0ull,
0x60ebd94ecbde7b13ull,
0x60eda1a1aa34b2c9ull,
0x60eff5a6fc7ac761ull,
0x60f2ce6aeae18a99ull,
0x60f7c69dccc65942ull,
0x61014459593bb545ull,
0x61051761b05dd628ull,
0x610ed032ba18bf31ull,
0x611225e5e451791cull,
0x6118277b063e772cull,
0x611d255e9e9c6b0dull,
0x612e8fdf42b270a8ull,
0x612fbcc617d265b7ull,
0x613095efb19977e2ull,
0x61327943e34fbd47ull,
0x6133fbe67d5b054aull,
0x61353a762ee3da52ull,
0x613c8d25e3dada9full,
0x613e6c21d2048a12ull,
0x61410dc20c73b5efull,
0x6149752d90e359dbull,
0x614b4e500edfa50full,
0x615aafc1d01cfe51ull,
0x615d521c47accb0aull,
0x615d9fa96c0b851eull,
0x615f8325bcb8622bull,
0x61633a7a231908ffull,
0x616b4e0f453a8efdull,
0x616b9f385b213e4full,
0x616f38fa4efdf108ull,
0x61801aafd18be878ull,
0x618023ed970687caull,
0x61814dd7711b811bull,
0x6183126925892ff9ull,
0x618650da40a4f23dull,
0x618ff21be4478ab3ull,
0x6190079542918b49ull,
0x6190b7855f2f60c6ull,
0x619235039727e08aull,
0x619937647f097d2full,
0x619b4b7fc2ba2a58ull,
0x619c649e7d795f35ull,
0x619c80cd2c2e69e6ull,
0x619dcaa6fa81478dull,
0x61a2a3dd708154beull,
0x61a8016ecefafbfdull,
0x61a9a9d7c3f3aeb0ull,
0x61aa7c38fecd56bbull,
0x61b2e1a6f68933f4ull,
0x61b6c14b3330a277ull,
0x61b7cdbfc651bc23ull,
0x61b808a8afbfcd0cull,
0x61ba50bb112c8229ull,
0x61bd3dd597b640b8ull,
0x61c563cd5237eff4ull,
0x61c910a120458b92ull,
0x61ca0d09b67e777cull,
0x61cc6ba7a509648aull,
0x61cd3befb7589165ull,
0x61d27b4e96a213d6ull,
0x61d542d1adf4414dull,
0x61dcdcbdae02d25eull,
0x61e6c741f8a6e542ull,
0x61f7ef7e7328348aull,
0x61ff1f64f3e497d1ull,
0x6203adaab3d8177cull,
0x62042d0d5174fdabull,
0x621149a96dda45daull,
0x6212090952f0fc9full,
0x62129cf931fcd86eull,
0x6213903d859cd8e9ull,
0x6219e216cdb16723ull,
0x6224f2c7765ae1a4ull,
0x622b63cba9d49536ull,
0x622db29ca4d971e2ull,
0x62332b50813c8381ull,
0x62352188472689c1ull,
0x62382d8a565aaac3ull,
0x62388c59dafaa2bbull,
0x623ad758256129dbull,
0x623de38d17bb0dbbull,
0x623fde49bfc8fdf9ull,
0x6244621ffdd8bcedull,
0x62456cf3dcac2ea2ull,
0x62472302b732d8a3ull,
0x624b287e64785924ull,
0x624d41a045d7ec20ull,
0x62539c3d09fa484cull,
0x62544895211fe482ull,
0x625c693320766057ull,
0x625d4e3a0f30c875ull,
0x6261ccddba2061b5ull,
0x6261cfe2b5b0b73eull,
0x626615381f948f9bull,
0x6267c616628be038ull,
0x626d7a07c127fb1cull,
0x6275c6e2c716bd8eull,
0x62909cf54c23ef7eull,
0x6293397fb112efe6ull,
0x629614b50126d542ull,
0x6298242bae964cf1ull,
0x62a25eca83763c71ull,
0x62a2b75ab039cafaull,
0x62afbccb5a924fa1ull,
0x62b4ab3dded2d212ull,
0x62bf15680081a28bull,
0x62bf3057a48f8cd8ull,
0x62bffa344786409aull,
0x62c0f7edb12c0768ull,
0x62c5bfc6319cafa6ull,
0x62c967bde56d7eb1ull,
0x62ddbbf469581cb1ull,
0x62dfd2edd6dce7c7ull,
0x62e3e882b08dd1a3ull,
0x62e4928aa4f22c9eull,
0x62e51c376d315a88ull,
0x62ebfd797624029dull,
0x62f32d6bdb935876ull,
0x62f4b3b5e349aae3ull,
0x62f4e40efeadb47aull,
0x62f5842213d2f68cull,
0x62f62058eb89fe94ull,
0x62fbace8432eee45ull,
0x6300e24b80234f69ull,
0x6301002c62bb5430ull,
0x6303eb301656aaf9ull,
0x63225a610932d81aull,
0x6329ed0eba47e8e8ull,
0x63333d4f5dc16f81ull,
0x6335b4832905f032ull,
0x633768f914f86c9bull,
0x6339898ba2a1ab02ull,
0x633a4d1f6cc36964ull,
0x633abdacadf4ac62ull,
0x633fafeae827f0cdull,
0x6340b6394d88fd54ull,
0x63434f5156189f5cull,
0x63443243928c6353ull,
0x6346da0458081920ull,
0x6346ea830f160ce3ull,
0x635c999b84c05276ull,
0x635ec0a0849159aeull,
0x635fb8a81979754eull,
0x63653652a8d59549ull,
0x637b2d59428f4140ull,
0x637c3ee091580137ull,
0x637ef39e81020bb2ull,
0x637f1fd3738dfc9bull,
0x6381dac80bc682e5ull,
0x6381e36e948b6ffeull,
0x63845fe7edf052d8ull,
0x6393c8f4eaa17343ull,
0x63944420b2b18c4aull,
0x63998e6822ab8065ull,
0x639f5035f019dc6bull,
0x63a72efe135c8f94ull,
0x63b26da547b03b28ull,
0x63b64f8a25c6d1f9ull,
0x63beb01b1cb6490eull,
0x63c1904a20dfb5a3ull,
0x63cd538479789d27ull,
0x63d0386165c863b1ull,
0x63d0eec920fa931cull,
0x63d5cb72b8c46ac4ull,
0x63de455e74bb7151ull,
0x63e3846de6122887ull,
0x63e7d968afbc9801ull,
0x63ea13747bfaad7full,
0x63eedcc1369be6c8ull,
0x63f315bab2333c64ull,
0x63f555d687f06f83ull,
0x63f6852f5e914ffdull,
0x64029d645a7faf3aull,
0x641014a2c9d6b77dull,
0x6418b9aad6438578ull,
0x6418c928e0d2dacdull,
0x641e1506fea85d12ull,
0x641eae922a61ea11ull,
0x6423da40556ddca7ull,
0x6424964953c4f952ull,
0x642504e2704c5b77ull,
0x642b780b5dfb4b12ull,
0x642bc4507b6182fbull,
0x642e64fb60395976ull,
0x64324496fbfae4f3ull,
0x644015e1a9d7984dull,
0x64461654336d3865ull,
0x64482cc2f14d8577ull,
0x64488f6a63328a49ull,
0x644aa7bb4ece44e0ull,
0x644cb5d6b9229d4eull,
0x644d17ccb95fd163ull,
0x645da4a61a2e04d7ull,
0x64600b7d87b00ac8ull,
0x6463fce99b24e713ull,
0x6467a8708a4572f4ull,
0x646f30d1e420a744ull,
0x64700da44739d464ull,
0x64716f58a9ae5c87ull,
0x6476982c50e99ebbull,
0x64779c2288646664ull,
0x647d61c38013ad69ull,
0x64881f37bd48fe05ull,
0x6488e8f03ae2afd3ull,
0x6489cce71451b245ull,
0x6491e90ea2e0ef22ull,
0x64941dedfac30d21ull,
0x649a6a219019603full,
0x64a4ca90abb9209full,
0x64b857aa12aeeebfull,
0x64c052a193fad540ull,
0x64c2b39703aad753ull,
0x64d161c0b6f15466ull,
0x64d2b21d8ab1a9b1ull,
0x64d7258407442fd7ull,
0x64d8f4e88b2b7f6aull,
0x64daf7bb7f39a1bcull,
0x64e2a46b4eedbaf4ull,
0x64e53f2d339d551eull,
0x64e64c34a9918ab8ull,
0x64e94337715a6993ull,
0x64eb6fde75413fa0ull,
0x64f279fda4436018ull,
0x64fae4ae78ec4b9cull,
0x64fc59a813dd2c21ull,
0x65024db30a3e52d3ull,
0x6505f4216ac69f4cull,
0x650af59463dfc846ull,
0x6518c9373da996f3ull,
0x65248612437261c0ull,
0x6524e75b395aef1full,
0x652621a752aef3ddull,
0x652b3500b92dc1faull,
0x65372e5941daca9bull,
0x653efaea4141bb7dull,
0x656192ec457b370bull,
0x6564e02ed3ce000bull,
0x6565391857567e4full,
0x6567c87a2cadaa9dull,
0x6574344d73bff96aull,
0x6576ceea37b34800ull,
0x657a0a00a536670full,
0x6586e05335cec6a4ull,
0x658d3fc25f46d40eull,
0x6594f059e4b2a441ull,
0x6595a7226c05aeadull,
0x6599d298762a131aull,
0x659bd2b7c0df07d0ull,
0x65a1b7946c383ae9ull,
0x65a3581571e61667ull,
0x65ac0c861d97767aull,
0x65aeae1e32403da7ull,
0x65b052e296b26b9dull,
0x65b0e073cf04c176ull,
0x65b207fc41d53968ull,
0x65b25d680fc52821ull,
0x65b76e7f0cff4153ull,
0x65d56d6d76d1d2d2ull,
0x65de1969010cc56cull,
0x65de656ca5682b39ull,
0x65e3ff4a0d4cda2cull,
0x65e49077084bb07full,
0x65fa9f64c48c1aedull,
0x65fd22e378c2aac8ull,
0x65fd435c8711c589ull,
0x66068ee8872c7af1ull,
0x660c1ef9191772a4ull,
0x66142735f5b8e26cull,
0x6614b4e9bd6a661eull,
0x6614c68e266db865ull,
0x661826d1fae73614ull,
0x66183d2d1b2e10d9ull,
0x662338e381111ff9ull,
0x6624807259cac7edull,
0x66268351dfe0d5f5ull,
0x662b724fde7dedf5ull,
0x662eafc3497cb591ull,
0x663357ba9c482eccull,
0x66354dcab91c9e1dull,
0x6635aec2f2148043ull,
0x663f81c2006ce074ull,
0x6642cac643a6d68bull,
0x6647e539a9705294ull,
0x664ae9b4da49cf4bull,
0x664c90d6ae41fbe1ull,
0x665542acf9ad6089ull,
0x66567510e75e89e3ull,
0x66645a813ba14be6ull,
0x6664ccd179749f97ull,
0x66677729c8f8929dull,
0x666d902b661b714cull,
0x66761bc26c200a80ull,
0x667789336155eb31ull,
0x6677b79da77c21f4ull,
0x667aa729f0ec8ad1ull,
0x6684da8b7dce0203ull,
0x668587c813ff66c9ull,
0x668a0a7d34938fceull,
0x668cff5d0210031aull,
0x6692dd702b4bbdfbull,
0x669847c0dc0ee6d2ull,
0x6698d3f88c24fe4bull,
0x669b180d14e2b68full,
0x669cd78bcee0f29cull,
0x669f0e5783c28a4bull,
0x66a613bf6727f591ull,
0x66acd3662a24eacbull,
0x66b4e829fa443bdeull,
0x66b5c90d6652519eull,
0x66b69a9d852133c2ull,
0x66bdbddbafec6d6cull,
0x66c0e879e283c749ull,
0x66c1a3872748026cull,
0x66c21cd7a0e19dfeull,
0x66c6c44aa3a9eee8ull,
0x66ce81b145797f2eull,
0x66d823f410c6c927ull,
0x66e478005c929591ull,
0x66e695ce2d7acb54ull,
0x66e6ed418bde7cebull,
0x66ee130e80faf60dull,
0x66efc9302a154d0cull,
0x66f5116e40847426ull,
0x66f712e4588fc888ull,
0x6712cc00a06785d3ull,
0x671ecd44d19ca627ull,
0x6720abaf0f5a73b6ull,
0x67224d4aa24cd3feull,
0x67272e6d5f50154dull,
0x672e4beb792e3bb9ull,
0x6734bf6826af2305ull,
0x673ac07d04644e84ull,
0x673af91b6ba8a5f4ull,
0x673fd41a601191cdull,
0x674db1f8fe8890bfull,
0x674fc2600c87063dull,
0x6757abb753af3045ull,
0x675d3c9947dfc035ull,
0x675eba1c676b4edcull,
0x6760a98301e7504dull,
0x67635807ddbd3da6ull,
0x67645bdbdab194dfull,
0x6768c441d653044cull,
0x676ab89c3769410full,
0x676aed7400c4e602ull,
0x676f086cd8f80b0bull,
0x6775e72767f86f40ull,
0x6776c893cbfb82a9ull,
0x677a6f90ae6528dbull,
0x677e66d39a028e19ull,
0x677e689bec25c514ull,
0x67800a25a20617e1ull,
0x6788b0ad8c0800ddull,
0x678c0d215e18ac20ull,
0x679d86a7d2caeb7cull,
0x679e3a0134d68c04ull,
0x679edc78556844c0ull,
0x67a4c594e1501206ull,
0x67abd8971eac1ef2ull,
0x67adcffc1e1cee28ull,
0x67aedac5bb0354f9ull,
0x67b847ce28f64daeull,
0x67ba665d64fd86a7ull,
0x67c07a2cae968065ull,
0x67c07f24ccf579e1ull,
0x67c0f890c4ecbf2eull,
0x67c882f9df7e8bd0ull,
0x67c9be297f4947b5ull,
0x67cfd607844feaebull,
0x67d011b31ebbd0f6ull,
0x67dad0bb36fe2732ull,
0x67e2a81121e981dcull,
0x67e55c9101c22183ull,
0x67e6fa0f82410f67ull,
0x67eae8b9809b0bf7ull,
0x67eb1e6c7de022aeull,
0x67eb28054de9a030ull,
0x67f0a90c7ac77534ull,
0x67f88d8563ba6b92ull,
0x67fa846664ddfca0ull,
0x67fcf8257a7ac658ull,
0x68020d6082c24631ull,
0x68037311f704d716ull,
0x6803925df22c798cull,
0x68089f5d91d2c585ull,
0x6809b5125c43c593ull,
0x681309990556fcf2ull,
0x681c2bd0147d0c95ull,
0x6824da32aaf5b4eaull,
0x68252be835f43cf8ull,
0x682681f545603342ull,
0x682a2c5a65a32b79ull,
0x682a35f869f275d8ull,
0x682a5faa685cd88aull,
0x68334c81cec829c0ull,
0x68369ce44143c1e2ull,
0x683776f9406d62e5ull,
0x6839664d5fb21ec1ull,
0x68414cf64115f2e1ull,
0x684315efc2b5ac27ull,
0x6844b9f212eff1fcull,
0x6844fcae45e67082ull,
0x6845a56a1402b294ull,
0x684dd42b35943d0bull,
0x6856dc8fca000f1dull,
0x685e697413172d47ull,
0x68640fd28bc94590ull,
0x6868f969cacb0bb4ull,
0x686e047282c645b2ull,
0x686e27b68e65bb25ull,
0x6878d303d4bf3b84ull,
0x687c7edcd7ac4482ull,
0x687f1450be301e84ull,
0x6881b9e392d252ddull,
0x68a40f84adaab27cull,
0x68afc584b3ca9fe6ull,
0x68b16438fa93ed10ull,
0x68bb6522e5db38e2ull,
0x68c0753269264791ull,
0x68c7837a3bb5ba40ull,
0x68c8f993a8598740ull,
0x68caf655b9fd9e49ull,
0x68d1328b1a936b6bull,
0x68d8166d54e9d4f5ull,
0x68ec465744cf0966ull,
0x68f02c8c7388354cull,
0x68f13d66f4ff9798ull,
0x68f3b8dc75326079ull,
0x68f3f738d9ff409dull,
0x68ff94a450f1430bull,
0x6901cde2a5b29ebbull,
0x691bf5d9de36d327ull,
0x692549e0a3a84c07ull,
0x692c4a1f6ec4ddc8ull,
0x6938c4ff50f295a5ull,
0x69571f11910afeafull,
0x695da841258bb7beull,
0x695fff786180d316ull,
0x69629bcada189023ull,
0x6963d21c347380cdull,
0x69663b19df4e4d1dull,
0x6968ac669cbf81beull,
0x6971f00505427a2eull,
0x6974ad343050753bull,
0x69926a66bb884ae5ull,
0x6994dfb6682f6667ull,
0x699998ce15f0a4ceull,
0x699e9d236623cc8aull,
0x69a3e463c53c0e9bull,
0x69a58296550e90adull,
0x69af80fe8e83a361ull,
0x69b7030af09bd26dull,
0x69b7a9097bb7d217ull,
0x69bb44b72230c822ull,
0x69bd5db0c5a7f948ull,
0x69bf3c5ca9479b22ull,
0x69c1c3a7a514b4c0ull,
0x69c225151d078fb7ull,
0x69c77e232da8bfa5ull,
0x69cd9fc0e4ac3b1full,
0x69d2d8abcf7e05a7ull,
0x69d9523d369b5cbdull,
0x69dc672d6449ea2dull,
0x69df0f66237fca34ull,
0x69eb39a6b6f3e6b6ull,
0x69eb5fb984f346adull,
0x69ef1faa58df637cull,
0x69f07298cbe47dcaull,
0x69f15705b5e5cec9ull,
0x69f3964af483860eull,
0x69f942e5f741a952ull,
0x6a053defdc9c436dull,
0x6a07d3325220278cull,
0x6a0960a11274e28dull,
0x6a0dc8f2dfb2a6f7ull,
0x6a0fe259f771b7dcull,
0x6a10f556bdcfa7e3ull,
0x6a139cc1fc44c6a8ull,
0x6a13e760e4b2ff59ull,
0x6a231ba29b6c5bd3ull,
0x6a2b4f557db95d8dull,
0x6a2f2c33df59c6e6ull,
0x6a31eab974e4afd6ull,
0x6a3aa2bed795228full,
0x6a3d105a3118929aull,
0x6a3df0f6757c74c0ull,
0x6a3e8a32b3f30298ull,
0x6a42906c81faab63ull,
0x6a4910ea19dc5dadull,
0x6a4a293c743be635ull,
0x6a4f4b3f985e65b9ull,
0x6a593131f46951f7ull,
0x6a5abe43f32530ecull,
0x6a6353d3001e2e70ull,
0x6a66b278501a8d61ull,
0x6a67d1d75797464dull,
0x6a6a296f7779e313ull,
0x6a6a57ad4d1419eaull,
0x6a6af188857b23b4ull,
0x6a6d3453bc957debull,
0x6a73ae577c395ef3ull,
0x6a755fbf5e322ad0ull,
0x6a80a2e4113ee38aull,
0x6a81357d3cae1df9ull,
0x6a83516e415529bbull,
0x6a84eaa9bbc20bc8ull,
0x6a8ac0054bcc92f2ull,
0x6a90e2588ee358dfull,
0x6a95237cd9edf6e9ull,
0x6a9711ce8ebdff01ull,
0x6aa32c048330271full,
0x6aab1a67568dc7e7ull,
0x6aae607594e7b1a7ull,
0x6abab4c0e1a5295cull,
0x6abde60a1ec8c9ebull,
0x6ac6c080d4e386b0ull,
0x6ac8abcd9507d54cull,
0x6ad2e89ae5a9e317ull,
0x6ad2fecf2232bf8aull,
0x6ad73808b56d1f2bull,
0x6ada2cd6db9f186eull,
0x6b189dfc70101925ull,
0x6b1e8e51d211bae4ull,
0x6b207dcf3459ea8full,
0x6b2d5f97dd8637f8ull,
0x6b4090e14cec4365ull,
0x6b469f16facb3e83ull,
0x6b4837b00c6e3d08ull,
0x6b54da6222719411ull,
0x6b54f38a065c4c0aull,
0x6b5879adfe3813c9ull,
0x6b5edf52760072e0ull,
0x6b60e19273d3ec89ull,
0x6b67cddcb897e570ull,
0x6b71314ff659b90dull,
0x6b7567204f470107ull,
0x6b75cc928c43b585ull,
0x6b90f688a05b16c8ull,
0x6ba48d14101211daull,
0x6ba869b4725b17f1ull,
0x6baaf2e79bb3854eull,
0x6bb0d0c4ad70cde9ull,
0x6bb23568bd361c49ull,
0x6bb80f7a2db75ac7ull,
0x6bb920deb7616a39ull,
0x6bc036bcc0da5702ull,
0x6bc1fc1497f75d7aull,
0x6bc5ff5a1ee9c655ull,
0x6bc6cfefb25c7e53ull,
0x6bc77d3d1feb3bf2ull,
0x6bc7a650109702eaull,
0x6bcb2d2b0ff94570ull,
0x6bd8efe23625be71ull,
0x6be5a019e186ea79ull,
0x6bf32f948047b84cull,
0x6bf3aeda5de2bb34ull,
0x6c0bdd03572ac2d8ull,
0x6c0c054ae8c6db3dull,
0x6c0e65b1a77b75efull,
0x6c1148cb0dcdc65bull,
0x6c15e9c7c39ea885ull,
0x6c1ef1e4551dbb64ull,
0x6c2008e3d3407ec8ull,
0x6c280eed77cfb82cull,
0x6c28d2ae4be05413ull,
0x6c3906027e742d07ull,
0x6c3a88cd8644641aull,
0x6c3c9b5f66f6488eull,
0x6c41221fcff3eaf0ull,
0x6c63d5673aa8b372ull,
0x6c6b99f6c0b9f31dull,
0x6c7db26756e02535ull,
0x6c7f4558b1f6a4e1ull,
0x6c803dfdbcdaff19ull,
0x6c80e4af2a27d8f8ull,
0x6c882b2edc8bb90eull,
0x6c88c11d6bd5c22full,
0x6c89ef5cd572c546ull,
0x6c95172f2cb7b107ull,
0x6c99937028bfb81aull,
0x6c9a8f5f4036fb7eull,
0x6c9ae51f2237cfe4ull,
0x6c9e6758bef17ad4ull,
0x6ca064df1797e6e6ull,
0x6ca46ef4fe5cc161ull,
0x6ca858cefec75e4full,
0x6ca9c3d00c35c3bbull,
0x6caa2b2fcfeddb5bull,
0x6cad994758306233ull,
0x6cc458a05b2f9377ull,
0x6cc542d4cba15ad7ull,
0x6cc7bf3b93875ba2ull,
0x6cc7dad12cd4e648ull,
0x6cd6f9cf8253f6abull,
0x6cd8f87039d9b395ull,
0x6cda023a5987153full,
0x6cdbd1906a21d068ull,
0x6cddaa35209d818cull,
0x6ce18af35bcb81ccull,
0x6ce37f46d622a0a2ull,
0x6ce509b6b42905feull,
0x6ceeb1d66c87c0f7ull,
0x6cfcce81b82959aaull,
0x6cfdd10df898ecb4ull,
0x6d0fb7b130567bb9ull,
0x6d17c0e5a3962892ull,
0x6d1d033afd46796full,
0x6d286d72a23121acull,
0x6d2a852051b8a218ull,
0x6d2fdb611b5f9121ull,
0x6d31d599a8487f83ull,
0x6d38d12c7ae8d59full,
0x6d3bf5b9d2048981ull,
0x6d3c1c9355966457ull,
0x6d3e339d97b5039aull,
0x6d3e8e69abc547adull,
0x6d3f55f465de7736ull,
0x6d4a791bad06f25aull,
0x6d4b2048ccae1cfbull,
0x6d4c9b3091828987ull,
0x6d5006a5092a09bbull,
0x6d527529b0712d1aull,
0x6d5473e1299c3674ull,
0x6d5d672b224cb9b8ull,
0x6d602939b6a8dd7dull,
0x6d643f6efbf4efb2ull,
0x6d64d71cd2368a76ull,
0x6d6e2f24d5c6d8c7ull,
0x6d7929c962946867ull,
0x6d7c10996c6ff0e3ull,
0x6d7d179b5d3366deull,
0x6d7f17b562b23eefull,
0x6d80d8bf737e7d61ull,
0x6d821a5cdaddd7f8ull,
0x6d893fd2a8a0ddfaull,
0x6d8b00fc9453e422ull,
0x6d8f9e60e94bb026ull,
0x6d9014b4f61507cdull,
0x6da6d24adc300fdbull,
0x6da9ad908f88a3ddull,
0x6dae2e819644b562ull,
0x6db2aa9716ac26fbull,
0x6db4da1e9e28d737ull,
0x6db8ed3747190f93ull,
0x6dbab5c4df187d1aull,
0x6dbad192bb576710ull,
0x6dbc53ae2d19e165ull,
0x6dbd7340642a0e52ull,
0x6dc0a2aa2a74a8f2ull,
0x6dc638127711c3f4ull,
0x6dcbdd2f5229fed4ull,
0x6dd2ea14fff10e02ull,
0x6ddae8980ca47c27ull,
0x6ddc34e2e9727899ull,
0x6ddd0665fcb51895ull,
0x6ddf5381d1e4e52dull,
0x6de228f9f3f81a21ull,
0x6de31de2c16e8174ull,
0x6deb2654bf5b2217ull,
0x6df14a7575a8f3e6ull,
0x6df4c7e4c012d229ull,
0x6e05dcb9a21a7fb0ull,
0x6e0bba44cc98d000ull,
0x6e0fbeace98b48f0ull,
0x6e276ba5bb89e594ull,
0x6e29a2f154524f0cull,
0x6e2ad1d15a0c76d4ull,
0x6e2b2ea7043b9709ull,
0x6e2d3a94c1b3b027ull,
0x6e2dd768deb2426bull,
0x6e30cf039a8a58aeull,
0x6e3e363624980424ull,
0x6e46beb614dbb9afull,
0x6e46cf26b12e42ceull,
0x6e486aaf6336319full,
0x6e4cdfeb250dec97ull,
0x6e51430cfecc536aull,
0x6e5599fa5e6f051full,
0x6e575bc059027585ull,
0x6e5e7aa12bcd9c47ull,
0x6e68f710acd9575bull,
0x6e80fd82f525f9aeull,
0x6e837691e7d6053eull,
0x6e883533833e3b63ull,
0x6e894ae4cda14a0cull,
0x6e8b92696c33881eull,
0x6e8c02552b9e81eeull,
0x6e9a0394e978343full,
0x6e9bca4c4e84793cull,
0x6ea0d592200ad35dull,
0x6ea36b637b79eee8ull,
0x6ea5f556a4e76cd7ull,
0x6ea80900de081aa8ull,
0x6eac5e8a883e383aull,
0x6eb147228632237aull,
0x6eb2ac4123179f76ull,
0x6eb9f1f9542ea157ull,
0x6ebc953e91967ac9ull,
0x6ebda61429ebdad5ull,
0x6ec2cee134f0327eull,
0x6ecc724be53fea4aull,
0x6ed1c07b45899827ull,
0x6ed497e9344dcb7full,
0x6eda414b1f4c9aa5ull,
0x6edc300c25b06f5bull,
0x6ee455ed0a11c8a1ull,
0x6ee994dffbb718a3ull,
0x6eee05a1d4470072ull,
0x6ef3d3a772bab2f5ull,
0x6ef47faddf59849full,
0x6ef5866500ec78c5ull,
0x6efa4ee409240a8cull,
0x6efa953e3654ff52ull,
0x6f00f096a013a9d6ull,
0x6f0911e6592ffbbbull,
0x6f17b126a1382517ull,
0x6f190ceb23db809dull,
0x6f24d68ce7633eecull,
0x6f251a792819825cull,
0x6f272c97c305ba9bull,
0x6f290693a41bc4e3ull,
0x6f369a7d0cc66e0eull,
0x6f3c78e39fc4b33bull,
0x6f3f0d7744e88c0cull,
0x6f464a28ebaa6eefull,
0x6f4da3d09890e256ull,
0x6f510493a7e5eb3eull,
0x6f52dd120a9bb54eull,
0x6f592a96cae7e022ull,
0x6f5a1898ecde1eacull,
0x6f5ad4b3c1c3ff7dull,
0x6f62e0693973db86ull,
0x6f672ae7873e3b4eull,
0x6f69fea9bfa11e62ull,
0x6f71730dcd532d54ull,
0x6f73e9771dad1fa7ull,
0x6f74a54709ce54ccull,
0x6f780d9315851e2bull,
0x6f79ad1c7d60d063ull,
0x6f874a41cc099609ull,
0x6f8acfff99a1966eull,
0x6f8e8597070b600eull,
0x6f8ec04e68805111ull,
0x6f902daac1359341ull,
0x6f94676deab7254dull,
0x6f976170733752e8ull,
0x6f97ba6fe2730becull,
0x6f97d91806c3bd1dull,
0x6fa1e9ba095f7bb8ull,
0x6fa4d8e80522d4e8ull,
0x6fa72889dbf7ed83ull,
0x6fb25dc51ca33445ull,
0x6fb9b0b2dd1e038eull,
0x6fc1cd95f52a4be9ull,
0x6fc4d0052cf1cd17ull,
0x6fc9ae633d1763adull,
0x6fda0bcc1889e679ull,
0x6fddcab6bae13d3dull,
0x6fe19ef56943d65cull,
0x6fe72202913d05bfull,
0x6fea197b6f2ce659ull,
0x6fec3500fadbe33full,
0x6ff5e5aa6788c87aull,
0x7008c88dfdb45ed1ull,
0x700db4b86ba23390ull,
0x7014ee6a3447ac9bull,
0x70231a430d997974ull,
0x7034ad226789ed2eull,
0x703e64d01d57692eull,
0x70415129f189c176ull,
0x7042df55c84e8535ull,
0x7047824609690981ull,
0x704f2d248feec5ecull,
0x705360d8f2eb131full,
0x7054d795758589caull,
0x70558c751a004ce2ull,
0x7058d153f1039672ull,
0x7059a06a2fd05813ull,
0x705c2cff860dbb2aull,
0x705c9dd906c1f066ull,
0x705ed3ca65c2611eull,
0x7060d097aab78cf4ull,
0x70682d678e51b911ull,
0x706fcdbdd30a249aull,
0x707588636e3770bbull,
0x707614dfc414d1f5ull,
0x707c689ef88f2471ull,
0x70816d7210b629a6ull,
0x708855c028f4ff7aull,
0x7089c413acd60d2bull,
0x7091927ffea94c45ull,
0x70959de2cfac8abbull,
0x709d24c5ed1e9031ull,
0x70a9af6bd4cf0b8dull,
0x70ac7a4717106b64ull,
0x70b24f02f53df485ull,
0x70b2f932bc102b7cull,
0x70b7bd310a946e12ull,
0x70be41256ad362b7ull,
0x70c51781ff2c7addull,
0x70c5af6ac11b2d18ull,
0x70cc49ceec642525ull,
0x70d05fbb69174a58ull,
0x70d25040bd214910ull,
0x70d35cd6be7e91d6ull,
0x70d4223b8261d9eeull,
0x70d4977cfd5dd94bull,
0x70da589b717a0a33ull,
0x70daec537b2603c3ull,
0x70daf5407a32b520ull,
0x70df2a710b007d71ull,
0x70e1fa7f05d78235ull,
0x70e42a43a3123fabull,
0x70f13f097fd73a61ull,
0x70f4bd463636641dull,
0x70f51920f47561daull,
0x70fd395283c7ea3bull,
0x7103482af125c512ull,
0x710643bc1d3cee2eull,
0x7110584a823b7e80ull,
0x711db865f99ee0a8ull,
0x7121d9d456d04a98ull,
0x7126c0dbf17ba548ull,
0x712e0d93265f86a3ull,
0x713b1da05f9451b3ull,
0x7140736caf39847aull,
0x7142263f426b3877ull,
0x714234ab9e3f907aull,
0x7146cb0ecf1724edull,
0x714ad7e831421e69ull,
0x714afdd4bbbd02eaull,
0x71523fe42317899dull,
0x7155f53ecc4e5e72ull,
0x716abc51d3573868ull,
0x716ce9e2d4cebde0ull,
0x716f529f9ccb37bdull,
0x716fadf793272635ull,
0x7170eb89eda467e1ull,
0x71715cc96c892445ull,
0x7174258eeffd0bf3ull,
0x7178b6e346aa4128ull,
0x717ef5069cdae377ull,
0x718780ab9e91b0a5ull,
0x718d9ee01f05622dull,
0x71900a4a75fae794ull,
0x71908bb4369bed5bull,
0x71913df5c314a65cull,
0x71950f2bbf9ee0c6ull,
0x719749f272910e60ull,
0x7197913bb30fd063ull,
0x7197cf8c2c44fc37ull,
0x7199c52084556c95ull,
0x719a9705ad66d71cull,
0x71a0e361130325ccull,
0x71a44020ec77b9d6ull,
0x71a5aaa626be3afaull,
0x71a6456f4e88abfcull,
0x71a98d5f1a86211bull,
0x71adafc86df7373eull,
0x71beba20ebb28bebull,
0x71cc0df3ee708a6eull,
0x71d60af25b5f6e7full,
0x71d7de43c7003c01ull,
0x71dc281de73e3486ull,
0x71e10dd5a03d5543ull,
0x71e1fc9c40e375a4ull,
0x71e26c19b2a62186ull,
0x71e56852d5eabb8eull,
0x71eed7665e9b7dafull,
0x71efab0de806c0f0ull,
0x71fc36dbc11f789bull,
0x71fee8b1d2f674f1ull,
0x71ffa9e66e2b6d70ull,
0x720362cf533068fbull,
0x720732535a7e6c00ull,
0x72086c300f947757ull,
0x720c244fea6691c7ull,
0x721694afa57f18b6ull,
0x721b6d64904549daull,
0x7227537d67f69610ull,
0x722fb388bae7dae9ull,
0x723eeccfc2d13ca4ull,
0x724c599e1ba55b6bull,
0x7258687eb77a7893ull,
0x7258ddac21f5d0d8ull,
0x7258f59fcb4b60bbull,
0x726889ca3dfe4200ull,
0x726deb423c396d33ull,
0x726f47e52a69a34cull,
0x7272192b7ee7477eull,
0x727ee0c9d77c4f00ull,
0x7281cf833ba91b77ull,
0x7287d5f2eb00d3bdull,
0x728fed81080ba5feull,
0x72915ec2ba2f5eafull,
0x729268fcd084f364ull,
0x72990a17f97a8466ull,
0x729a03cfcd458f80ull,
0x729d5b6ef8b095dfull,
0x72a8559069dc79cbull,
0x72ae4e17fd6f535full,
0x72aec40443b2057cull,
0x72b78b752bde2138ull,
0x72bfa6304c586731ull,
0x72bfc65cea0a3496ull,
0x72c8de21dc0dd69aull,
0x72ccc1954b5d6d85ull,
0x72cdeee00a44bddaull,
0x72d4415753649098ull,
0x72d56c8c6725b504ull,
0x72d7b1d5f1a2af86ull,
0x72e76f3555992f20ull,
0x72eec97e678c2800ull,
0x72f3579040bf7088ull,
0x72f42c6de5d6dc01ull,
0x72f4a4cea7fd93c9ull,
0x72f5cc0480676900ull,
0x72face233dbfb0a1ull,
0x730503c7d0d6ed64ull,
0x7305246a1750617eull,
0x730bc4a0b81da573ull,
0x730e39e239c778e7ull,
0x731d01f73f0e38f6ull,
0x731fa422eb4195d5ull,
0x732414203669b084ull,
0x7333943a51ba7f56ull,
0x7334dec205dfc110ull,
0x7337512c23096d77ull,
0x73376a6528b63f3aull,
0x733e7995a4d5ee01ull,
0x7343341b165bbe19ull,
0x7346ecefeb94bfd8ull,
0x734e9509dd3b0d84ull,
0x7352e60bb7329461ull,
0x7356d4b5a831fecfull,
0x735df162831c6bc9ull,
0x7363aa6bdb04f0cfull,
0x736733a174ac7ad5ull,
0x736c74049f3e3cd2ull,
0x736e5d9aa8874ba4ull,
0x7372f4f3051285d1ull,
0x73788675cd06137full,
0x737969509ca10db6ull,
0x737b5adab11a4d2dull,
0x737b686981d6c48full,
0x7385dd419db960c1ull,
0x738c6c7a932f98fbull,
0x738f5c6786fa521bull,
0x739146f20fb8b775ull,
0x73920f6bf9a087f7ull,
0x7395365c18d21cf4ull,
0x7395dfc07fa566c1ull,
0x739d4eda6b5e14f3ull,
0x739f423477ff1bbaull,
0x73a2f3a0586c9e18ull,
0x73a4d015b2fe4e3cull,
0x73a660a122dc73c2ull,
0x73a8c656f204c81dull,
0x73ab2bfc8fb3b0eaull,
0x73b123415dc5744dull,
0x73b6c3132e8d8dceull,
0x73b796cfd982ea74ull,
0x73c9235bac8b01c7ull,
0x73cdb33846451663ull,
0x73d22d03a872cb07ull,
0x73d5959128bb9186ull,
0x73d69bdf1d914addull,
0x73d759b3a9c9f8edull,
0x73d7eca1c6051871ull,
0x73df7b63b43a02b8ull,
0x73df83ebeb3acf43ull,
0x73e084538201c0c9ull,
0x73e1e038c87e90f9ull,
0x73e74f4f95a78804ull,
0x73e9471100cdd3c4ull,
0x73e99d0259ab2878ull,
0x73f2789edc0ff34eull,
0x73f3c16210815367ull,
0x73f4857dbc63ace5ull,
0x74144105eade2255ull,
0x741553c063d838adull,
0x741c4b066a6113abull,
0x741ed24cd027c730ull,
0x7424948d37c11cf4ull,
0x74278782258c6535ull,
0x7434202088add6bdull,
0x7434404b38e73547ull,
0x743a078cd9768644ull,
0x743c3cdc31ca2921ull,
0x743e51bb60d79143ull,
0x74417287d2d5d8abull,
0x74444c66c7894ffcull,
0x7447c51716824819ull,
0x7448090752ac5aa0ull,
0x7449e33e6455e0bcull,
0x744fe7f855edf51full,
0x74542987dcfe2a5bull,
0x7456785391581aaaull,
0x7458e39811791ab6ull,
0x745e0db088b12c52ull,
0x74708714cf8fc88cull,
0x747adc8b3de575d6ull,
0x748745ad03a3b2cdull,
0x748bdf4c39ab9c67ull,
0x748dad535a6d8a8dull,
0x7492988257710e80ull,
0x74968a9eea7f046aull,
0x74984ac8b1bbc1b2ull,
0x74a5c0365d1e6b28ull,
0x74a790bc42a08652ull,
0x74b137f2e1f09048ull,
0x74b64789b13def3bull,
0x74b6ccd0038c5df7ull,
0x74b74ad647e8c6e3ull,
0x74c1f38937148be4ull,
0x74c4ece66530fba4ull,
0x74c96be50338c210ull,
0x74ceb1d86531ead0ull,
0x74d81e28130f343full,
0x74df5d116fd900b8ull,
0x74e1536a1f31e299ull,
0x74e610bd708640a5ull,
0x74ec0ba2b07bc49bull,
0x74fb6c3c05564a96ull,
0x74fe80148c65b551ull,
0x75017489a8d484fcull,
0x750203c66802441full,
0x75079206876060d8ull,
0x750897ef889a00ceull,
0x750b2e7c562d584cull,
0x7514e28ee0081c82ull,
0x7515f622bc7b94aeull,
0x751af513c32aa138ull,
0x751ebe22329c75d4ull,
0x75281bf47de0730aull,
0x7528da801b829526ull,
0x752e28e2e37b77a1ull,
0x75370b0e4c87d1e2ull,
0x75381387592d0337ull,
0x753edf93866f58f6ull,
0x75400addd009d57eull,
0x75423c6664124b6aull,
0x754c0c7a2ec5c865ull,
0x7558b795b2e8777bull,
0x755a18c327277ef3ull,
0x755fef1c091d1747ull,
0x7564e6f24a362955ull,
0x756fad8023b2f3c1ull,
0x7577ab1a438bb817ull,
0x7579ba2aed003ba0ull,
0x757d2c77b3d7db72ull,
0x7591ad7a5d0b02a7ull,
0x759463d6d035cf17ull,
0x7596dc383c8bd737ull,
0x759cca7729c612eeull,
0x759cd105ccdec494ull,
0x759e02267de473e5ull,
0x75a213e212dbebd7ull,
0x75aa9e2f1cfb3752ull,
0x75b78af3519233d8ull,
0x75bc11a72ca28739ull,
0x75be3cab9b4f4717ull,
0x75c210e6da5c06cbull,
0x75d22405102f067bull,
0x75d6989fc2ba22d1ull,
0x75e3a853d5f580e4ull,
0x75e5c41ad75f0413ull,
0x75f0bb0be16cf6fcull,
0x75fabdf3385eeae4ull,
0x75fb5d127d393610ull,
0x75fc76a2d3ea4bb4ull,
0x75fcd96cbdc1f15dull,
0x75ffc8ccd6546e30ull,
0x7603d5648aca57ccull,
0x7607e5fa205f2b36ull,
0x76086c95c5134295ull,
0x760e9e77302b2a5full,
0x76131a2985257869ull,
0x76178803df1731dfull,
0x761ebc1f700d1caeull,
0x76208638a14e4543ull,
0x7627fc72579cd5daull,
0x762d90b6f318ee99ull,
0x76359754521c01a7ull,
0x7635ce7a26fa8d65ull,
0x7635ff84130c8d0bull,
0x763765411b3692c0ull,
0x7639a027f81292d1ull,
0x7639c249e85d4a2eull,
0x764588c9354e9a05ull,
0x764f09a8f9406b7full,
0x765332506bef8310ull,
0x765a60cc8282aeefull,
0x7661d682638b6b3aull,
0x766b1c9a7158c4e4ull,
0x766e0b608021666bull,
0x767415f2d536b8edull,
0x767ad0e7c9783c7full,
0x7684a8cc8fd32312ull,
0x7685560260d8f44dull,
0x7689cb4e98cc74c7ull,
0x768c364d0d0a3805ull,
0x768d804d6d7006caull,
0x769170dca1d0fa91ull,
0x769baaf7102c1ad3ull,
0x76a6e126d177b185ull,
0x76a79f4af1f31779ull,
0x76a8ede307139924ull,
0x76ac28b93962183aull,
0x76bae698a2ba18a7ull,
0x76bf8f8e4d997d74ull,
0x76c149f398ddbc61ull,
0x76d61f6e4bec97d5ull,
0x76d7069f312b2ec4ull,
0x76dfba4f7548c6e5ull,
0x76e2c341e5c13a8eull,
0x76ef6ec43176ab80ull,
0x76f35cb02bc6278cull,
0x76f4271b40bbc539ull,
0x76fc9503f40a6245ull,
0x76fd2307bf68d88bull,
0x7707986e2da505e3ull,
0x770f351085f6a001ull,
0x7719425d07c11d9full,
0x771cc8f7aac71868ull,
0x772670b8f29db99full,
0x7727a3275a1adca9ull,
0x772a8f30c97e8eb0ull,
0x77354e07c7b3d823ull,
0x7738dd89e3f972f2ull,
0x773a4b5b641f7422ull,
0x773d2bd0d427ce07ull,
0x7744614b2c675cb5ull,
0x7747f46664d79bf1ull,
0x774a0f9fd9a70fd0ull,
0x7753c569868aac13ull,
0x776082aea307bb98ull,
0x776623dbc99e6572ull,
0x776d43b68890ad24ull,
0x77788cd81a8094f2ull,
0x778076dde103bf12ull,
0x77811cb2929631d8ull,
0x7785604cbec37717ull,
0x778ca97c065ceb93ull,
0x778ec69aa4a3a825ull,
0x7791c23a774e2b7aull,
0x7796627105760b8dull,
0x779b1dff66cc68b5ull,
0x779c2b045897fd14ull,
0x77a0973c463c1841ull,
0x77ad67971836104full,
0x77b0b2f780adb994ull,
0x77bd3534e9152e17ull,
0x77bd6b23091be191ull,
0x77c34c11393733c6ull,
0x77cb1750475412faull,
0x77d15303f9b5fe77ull,
0x77d3b8a9b4d78006ull,
0x77d48fe93aab2269ull,
0x77da55e905c5fdedull,
0x77e0279b18a4b79dull,
0x77e24d1a1b14a0c6ull,
0x77e4093bcb25a0edull,
0x77ed66f6c6520e59ull,
0x7805d345767898aaull,
0x7808062e3222d77dull,
0x7808e862cb9eb96eull,
0x781efd4a98884608ull,
0x782df4c12f43d162ull,
0x783261be70d4be3dull,
0x783ecc9317032737ull,
0x784205888f8e6938ull,
0x78450045267504e0ull,
0x78467b400a185701ull,
0x78481db26378644dull,
0x784f4874e80068d4ull,
0x7851114e481168f6ull,
0x7852b5e012120a75ull,
0x785a0cc580d99a75ull,
0x785c638f26e4a518ull,
0x78628ab3a25c844dull,
0x7863621000b4d5caull,
0x7866b54781e237efull,
0x78685e5f620979e3ull,
0x7870152a6ec72bc0ull,
0x7876e8b8308cdc20ull,
0x7877699653cbfa37ull,
0x7877b5083a4cfc47ull,
0x78786c75caaf7682ull,
0x7879f655523e1eafull,
0x78820916cf2ca9cbull,
0x788d21a4fc95913eull,
0x7893c167ca1229a8ull,
0x78a11f57e04e2275ull,
0x78a3c750815c6e9dull,
0x78a5f8749ff5ac34ull,
0x78b02213a454dbb3ull,
0x78b63a839b8b4085ull,
0x78b91e679d24e96aull,
0x78b9ced02c3054f9ull,
0x78c2daa884b5c71bull,
0x78c4ec10f080a036ull,
0x78cf2a37bc991823ull,
0x78d3960f22fe9b47ull,
0x78d547d6f6e0988eull,
0x78d9ebbe9e1ca734ull,
0x78dce6732e786713ull,
0x78e7a5ad043b11e1ull,
0x78e8399b179686faull,
0x78f11e6856c8ba3cull,
0x78f64d95365efa2dull,
0x78f75b437a82b85full,
0x78fbf72bd5d81d57ull,
0x79041e45ac093105ull,
0x7909e91453d598e7ull,
0x790a94a89259b78dull,
0x791a42a80e2700c1ull,
0x791bebef71a47bc4ull,
0x7929de26239e1c18ull,
0x792a587150b22ff4ull,
0x792a629aede437dfull,
0x792b7aeeb8c4da35ull,
0x7931334e07cd2c3aull,
0x79496ae6c21ff36full,
0x794d65f1e2887058ull,
0x794e0cd687598491ull,
0x795ab713d6ed59b0ull,
0x795ac0eb7fb4e3d1ull,
0x795adf6576d2535aull,
0x795b89efd5679d95ull,
0x795ed27485799399ull,
0x795f2826572f428eull,
0x79660af0a14b0316ull,
0x7969fa651f9df92aull,
0x796bfbc84b2a2270ull,
0x7974240c0d4dacf8ull,
0x7974a8cdd1cba73aull,
0x79786a90e2352b25ull,
0x7978ea67d5441de2ull,
0x797d45d463c5cdb8ull,
0x797e547537629c78ull,
0x797f21c0a0de411dull,
0x797ff80818c4bdc1ull,
0x79809759d8581cdcull,
0x7982a2abd26ee360ull,
0x7984246c219b7d4eull,
0x7984c2363138944eull,
0x798715b80adeadabull,
0x7987508b4bb59664ull,
0x798de202dac4a9adull,
0x7992db0d35f2ed7bull,
0x79966476cf453e75ull,
0x799d281b3c5353c4ull,
0x79a123b7a13a8773ull,
0x79a2f33987933045ull,
0x79a5fac5420f831full,
0x79a9525d6d876cedull,
0x79aa91cdf986f2a2ull,
0x79b3d0075e317106ull,
0x79b5fecebdfa409cull,
0x79b649e5b586f695ull,
0x79c4c2a50ed23ae1ull,
0x79c5aef881cc3a8full,
0x79c827a535b2591cull,
0x79c8f41cdc3b9bd9ull,
0x79d17536e19c6614ull,
0x79df2887f04518abull,
0x79e82f655fb31f94ull,
0x79fbc4bdb276f7c2ull,
0x7a0b206558924c40ull,
0x7a0e0fd52fa53877ull,
0x7a15d6d9c91945d5ull,
0x7a174daa6bbd547aull,
0x7a27769135823eacull,
0x7a2c1271a8a70073ull,
0x7a32e7afe94d9131ull,
0x7a39d33b748de6a6ull,
0x7a41339f6c647517ull,
0x7a46a06fa4106d2full,
0x7a4907ecdb860d2eull,
0x7a4b585c2048f515ull,
0x7a4c6abe8ec4a9f3ull,
0x7a4ffdb02548a4ceull,
0x7a509b81e0cafdc9ull,
0x7a5acaec0f394aa9ull,
0x7a63c56816bc66d1ull,
0x7a68a3d0116f9d7full,
0x7a69f89b09dd2a7cull,
0x7a6a8075386cf059ull,
0x7a6e1377bfd53408ull,
0x7a72e842e1a82cf1ull,
0x7a7630a071f07e3aull,
0x7a7cbdf9edd611bcull,
0x7a88c380952847eaull,
0x7a8b680a25e1d298ull,
0x7a8c72853f989775ull,
0x7a8f01704a76a0c6ull,
0x7a8f4f79e844ee7dull,
0x7a90239efa6b1cacull,
0x7a981b35e8ceaa25ull,
0x7a9b20ee46db5d4full,
0x7aa114de30b99f69ull,
0x7aab67024b6c10f6ull,
0x7abee6e62e841c94ull,
0x7ac0e5a31e124de2ull,
0x7ac71193de062a28ull,
0x7ac7758b7fd548f0ull,
0x7adff131d49276d0ull,
0x7ae3c76c77608453ull,
0x7ae82a39eb891f70ull,
0x7aeef0d6a16358bcull,
0x7af2faa5368482a7ull,
0x7afafa70fc1e9b68ull,
0x7b0f9740221821c9ull,
0x7b104719e531911full,
0x7b1473d6cef64c3bull,
0x7b17a280f9248628ull,
0x7b213dd47e242478ull,
0x7b220f8e10817659ull,
0x7b24197458c48accull,
0x7b25f2a51e861ff6ull,
0x7b29345ace32d9e5ull,
0x7b2b56ee6099bec8ull,
0x7b33ed234b06c309ull,
0x7b35d5969b5dac38ull,
0x7b3c09cf9d6128a0ull,
0x7b449e389578e9f9ull,
0x7b4761adcaedf9fcull,
0x7b4b76738b0e51a0ull,
0x7b4de1494f17bd58ull,
0x7b505b59608f2694ull,
0x7b50903619190653ull,
0x7b53723cec87d6e9ull,
0x7b54e1136d059811ull,
0x7b551fb0bc746fdeull,
0x7b55aaf1ffcc9d79ull,
0x7b597937c0f5cb3eull,
0x7b6a000f5718741bull,
0x7b6df6223e7249aeull,
0x7b70f74cb26daf10ull,
0x7b7272d2a28a2021ull,
0x7b741e53f8700a8full,
0x7b7576fba19ddd61ull,
0x7b7a312c661b687bull,
0x7b7ad61537e71b29ull,
0x7b9717f6844f171dull,
0x7b99deff6c6bece7ull,
0x7b9c275e201a65dfull,
0x7ba8dda2c3681157ull,
0x7bb015bb3a863f6eull,
0x7bb16e0f8176d850ull,
0x7bb2631c3729fa51ull,
0x7bb9d26516bf6e1bull,
0x7bc68155edf7b368ull,
0x7bc73830682498aeull,
0x7bc73fc6d72eb8eaull,
0x7bc9a46485c54413ull,
0x7bc9af3d96a3c877ull,
0x7bd144a78867eb26ull,
0x7bd667b3364d6b83ull,
0x7bd7d243fd80d89dull,
0x7be06fa9d7161593ull,
0x7be2bf283a253f6bull,
0x7bf271b23b7d80f2ull,
0x7bf27cef89825f8cull,
0x7bf878596ffa199dull,
0x7c0365fc733784b0ull,
0x7c03a7ca90a11b74ull,
0x7c053fabbd6771d6ull,
0x7c0601fcfae81dabull,
0x7c07d340d2e64906ull,
0x7c08fbadd806e291ull,
0x7c0b915da342d41full,
0x7c0fb41b37877587ull,
0x7c1580002d315122ull,
0x7c1dceb1573b0a62ull,
0x7c404678b0593319ull,
0x7c4a3c0b49464bd4ull,
0x7c4a4ba7191e470bull,
0x7c5a497d692c62d5ull,
0x7c5ae8f60d003fa5ull,
0x7c633b17f952f078ull,
0x7c6847499cfe9319ull,
0x7c6c033fbb9f1f6dull,
0x7c6e73c5897edd40ull,
0x7c80ee1a3a80932full,
0x7c842718df06465aull,
0x7c84eb5dc1242f4aull,
0x7c89160cbc1fdd00ull,
0x7c8fae3831c8fd45ull,
0x7c9507e557bbb772ull,
0x7c96b88901f5a051ull,
0x7c988493d55cd3d9ull,
0x7c9b700184b1221bull,
0x7ca7cfa1c615e725ull,
0x7cbe1cba916f2f7aull,
0x7cbf924a93789168ull,
0x7cd56b19f9f3d3a0ull,
0x7cd8c8c21ce22cf5ull,
0x7ce16393ca06cbe6ull,
0x7cecbab12365e8b6ull,
0x7ceebbced868dd4cull,
0x7cf4b539e7150636ull,
0x7cf5d612c2e178a9ull,
0x7d06ae2807a92474ull,
0x7d19f3e13caa2216ull,
0x7d1c27f3f3b43091ull,
0x7d1f29462a012ee9ull,
0x7d21a3c27ce4ee68ull,
0x7d3847a2d21a826cull,
0x7d3d11e1a91839f2ull,
0x7d3ddb0f7bbb1d6aull,
0x7d4201f0a211da38ull,
0x7d45427b514246b7ull,
0x7d488b9e5897aff4ull,
0x7d4face91f5b3e32ull,
0x7d5436135d8e242full,
0x7d56d51ddebc77d9ull,
0x7d5831867d945483ull,
0x7d58b1bed2c75b47ull,
0x7d5ba15ca2b2a12full,
0x7d5d411518076c5eull,
0x7d6583a47097fe5dull,
0x7d6ef5ece69bfe64ull,
0x7d7711bb2489c60aull,
0x7d789306f3819a8bull,
0x7d7f0d787200d59aull,
0x7d8246f194e41f6aull,
0x7d826f5102ed2eaeull,
0x7d896b70b87f20e3ull,
0x7d8cb9ba2c58eea7ull,
0x7d9966ed41ebdfb8ull,
0x7d9cbd6a33a921f8ull,
0x7dae7a5e75f13496ull,
0x7db21a752ea731e2ull,
0x7db41dc25c1d3ac7ull,
0x7db680f369782a4full,
0x7db6aef67ebf832aull,
0x7dbad1187866cee5ull,
0x7dc5f92ce55ea3a2ull,
0x7dca7b30fd0952dbull,
0x7dd0d09b50f9c954ull,
0x7dd896c1cecb1d26ull,
0x7de8483508f6ff4aull,
0x7de9dbe32d02cf77ull,
0x7dea46f32a2e9707ull,
0x7df510c800430a32ull,
0x7df870d527c65f16ull,
0x7dfccf79b7ac49b7ull,
0x7e049ea2d27928d3ull,
0x7e0c01b9bb717012ull,
0x7e10212ef832bec3ull,
0x7e12f82dfd6042caull,
0x7e14a19626c7993full,
0x7e15b67c77a85d43ull,
0x7e19a90b370d7517ull,
0x7e1b4fd791a4159eull,
0x7e1c4a67feab81a3ull,
0x7e256a6ca558234cull,
0x7e25deaff8344acfull,
0x7e3042e1a8244960ull,
0x7e33740bfbf7b581ull,
0x7e34657c2f829c9dull,
0x7e3c54a7eb49c9a2ull,
0x7e3e48c1ea609111ull,
0x7e46114a9755ae0aull,
0x7e47180e7291c5feull,
0x7e48acd3b84b695bull,
0x7e48c691bcdea1c7ull,
0x7e54dea6d7b7817aull,
0x7e5a47afd68b6d23ull,
0x7e5c641da5da0d4bull,
0x7e5ee58aa7c1f1f3ull,
0x7e65fe157c5dc379ull,
0x7e661e2ea21b8a68ull,
0x7e6b84ab16e07246ull,
0x7e7739f5f6ce549eull,
0x7e79a4e210a22ed1ull,
0x7e7d59a08e45ec8cull,
0x7e7dd3e39106c147ull,
0x7e83d12a29bf9240ull,
0x7e85e1890200d8a9ull,
0x7e8929176a0eba78ull,
0x7e8a33c41f96470bull,
0x7e8c18dd57c9d4d1ull,
0x7e920cb1e67ef34aull,
0x7e964dbd468ec59bull,
0x7e96d502746e3b2full,
0x7e978b2dfb655bddull,
0x7e9d7c83eef11d46ull,
0x7ea5ce9e3debb10aull,
0x7ea63cb94d46bb39ull,
0x7eaf402726465a7eull,
0x7ebdb43dfc0b7070ull,
0x7ec14f9118d19c8dull,
0x7ecf4f2b01dc555bull,
0x7ed2155d4b4fae89ull,
0x7edd6c50f3ec4794ull,
0x7ee27df670162ad7ull,
0x7ee437128af29039ull,
0x7ee4b7a560a0b073ull,
0x7eec15697432d7e6ull,
0x7eecdf06c7d37426ull,
0x7eee3014f43f09a9ull,
0x7ef9575234556654ull,
0x7ef9f157e2000f53ull,
0x7f02b288950aba8full,
0x7f13c26586b732c9ull,
0x7f1724007f509841ull,
0x7f1bbecb10b89b85ull,
0x7f1c55e07daac62eull,
0x7f1ee10065349219ull,
0x7f241e18538b9a69ull,
0x7f254a42943a7cc8ull,
0x7f307ad7a7685cfaull,
0x7f3695dbb5b7d2c5ull,
0x7f43cfd9961230dcull,
0x7f46fc2f30393108ull,
0x7f541f88377924b6ull,
0x7f57153804147b1cull,
0x7f629ee2675a423eull,
0x7f70b4eb86e34643ull,
0x7f74e6c12678717aull,
0x7f7a095676988a7full,
0x7f7d8e2b8643ce53ull,
0x7f83b41f653d6880ull,
0x7f84355d421f9f6bull,
0x7f86ab477e0f9201ull,
0x7f8969029b6f0193ull,
0x7f92500c2dd9a641ull,
0x7f946a47452324b3ull,
0x7f962cad3c19c400ull,
0x7f96564a3191a38bull,
0x7f982a9fc556aefeull,
0x7f9e7d0b8b75f408ull,
0x7f9e95aea358a567ull,
0x7fa4a778449f2207ull,
0x7fa5736456473c3dull,
0x7fa9143359ad5e89ull,
0x7fabe89c5c78dfdaull,
0x7fb42f07ccb6a3baull,
0x7fb858778ef6a37bull,
0x7fbd6260709195eeull,
0x7fbdbbabe52c0f65ull,
0x7fbfe196af11e873ull,
0x7fc0819b369ae616ull,
0x7fc56bc6f25bf3d9ull,
0x7fc7e75fc515c55eull,
0x7fc95f87343eabd0ull,
0x7fd0eaa4c2372ac9ull,
0x7fd16a27c78d924eull,
0x7fd434aaf1af4e41ull,
0x7fde65b6cfcd5fe8ull,
0x7fe4fe073dc4b6cbull,
0x7fe70750af4c95e0ull,
0x7fe739a8ec286773ull,
0x7feae5c7f815eb87ull,
0x7feb40b97720467bull,
0x7ff044e29688a879ull,
0x7ffd464870f0f006ull,
0x7ffe6c666b7120b4ull,
0x80005ab16a180350ull,
0x8004ba00ebe20de8ull,
0x800bf4554ecd206full,
0x800c0281ab0e471cull,
0x800e0966abec3aeaull,
0x8013ea26ed0f72cfull,
0x80173ce99709905bull,
0x8018613cc3168dbfull,
0x801b56a5d0559959ull,
0x801bd56381add84bull,
0x801e9791ee6c375aull,
0x802dcb694da1b97eull,
0x8030a36f848db63bull,
0x803775318e27cbb3ull,
0x803ecb9d332b4adaull,
0x80407f172fc48dd0ull,
0x8045d2dce76e3aa2ull,
0x8048560616bac8baull,
0x804cfa8a20de72d2ull,
0x805101aa18ab6441ull,
0x8051f09799b2c840ull,
0x805c1b14be26554dull,
0x805c36ca22872784ull,
0x805d78ddfc49c5c1ull,
0x8067841561c92828ull,
0x8067d6cc113fa47dull,
0x806f35a2f57b7ad9ull,
0x80711e70faac5520ull,
0x807944a218b48943ull,
0x808223d699e01982ull,
0x8084ce56cff9d728ull,
0x8088e4682dc2edb5ull,
0x808f4a75470ddb7eull,
0x80996c28a9bd2821ull,
0x80a0e1418bcc6686ull,
0x80a21ab47d6aab45ull,
0x80a54c3ff33cca59ull,
0x80a7aa4d41ec4ed3ull,
0x80bd03a6e8f2efdaull,
0x80bf0d651742092aull,
0x80d65990b1e0e832ull,
0x80d9f5cd38a049d4ull,
0x80df7f341631a762ull,
0x80e1bf634fa83975ull,
0x80e442b572c41d46ull,
0x80e59e7ec434cce0ull,
0x80e7d042da2fbe00ull,
0x80eb5fe49169ab34ull,
0x80ecb7dc4df15296ull,
0x80ed1fa65336c1e7ull,
0x80f01985fbde0922ull,
0x80f3bea5d5466ca5ull,
0x80f8e9147b2b333aull,
0x80f9b8260e5df550ull,
0x80fbc002d96ac64eull,
0x80fcb30eaa2769e2ull,
0x8105c28a210430cfull,
0x8109905a0c5194b4ull,
0x810d769bdc1f5988ull,
0x810dc4d16b3bb8baull,
0x810e70df209f6c8eull,
0x8110065f8127d87aull,
0x81145612b6f8aab1ull,
0x81155314443ebfa9ull,
0x81165f8211fffee8ull,
0x811cc37fb94b01a0ull,
0x8120acadb54453eeull,
0x81262fd6ea5e252aull,
0x812fd1562e783f95ull,
0x8130f663d8ebcdf7ull,
0x8131bf3783296dbeull,
0x81380acc6753824dull,
0x813fde569397d352ull,
0x81480259c0d7200aull,
0x815327674294e397ull,
0x815936cd20dd305dull,
0x8159eda75fa8f406ull,
0x815a974e2875f8c5ull,
0x81638416d96193d3ull,
0x8166e0430f2ffd18ull,
0x816ac9a2ace88440ull,
0x816c6585741bc50cull,
0x816cc34fcbf7f6fcull,
0x817285e8181a816dull,
0x817394d74d7bb158ull,
0x8176dc9a116b2116ull,
0x817a47781f28d957ull,
0x817de1609b289a71ull,
0x817fc4a196b9a50cull,
0x817fd38f70f10bacull,
0x818323381031a0d2ull,
0x8186eab96c61700full,
0x8186f4f759607a50ull,
0x8189c06099e89730ull,
0x818a410fea7ea599ull,
0x818a8f6679814a88ull,
0x818cf824122cddcaull,
0x8190a0819d40fad4ull,
0x8198d6454cd787dcull,
0x819d3a7897e12cc0ull,
0x81a823468d2b777dull,
0x81b1b650acd3a50dull,
0x81b315a22d6597adull,
0x81b319071c8bca38ull,
0x81ba031410d55275ull,
0x81bc69036b41c7b4ull,
0x81bd66023a31013eull,
0x81bfb85fed6e2d87ull,
0x81cb8b7284427b6eull,
0x81cd565f82867812ull,
0x81d346419286d337ull,
0x81d7b37c73f03671ull,
0x81d8cc44ff2d6d6aull,
0x81db4ba365486e17ull,
0x81de7b8cc2b0ace9ull,
0x81eb2a2dcd1383eaull,
0x81ebb53df9ce8057ull,
0x81ebd91a60678ca1ull,
0x81ee989c12fc420eull,
0x81ef23f8953f9f6dull,
0x81f18c17132b736full,
0x81f1e88d619b2fb9ull,
0x81f79ad3e2d216deull,
0x81fa33885bf6a07dull,
0x81fcb71c307435d9ull,
0x81ff5240572bacddull,
0x820137709e5352cbull,
0x8201617cbbf6cf30ull,
0x820e1f230075c467ull,
0x82100aa2dae857c8ull,
0x82117ec7cdd14032ull,
0x8212addf7d19c362ull,
0x821953dcb3bfa83bull,
0x821fbdd570bb3850ull,
0x82232251fb9aa506ull,
0x822df8716d476333ull,
0x822f33b8bb415ecaull,
0x8233f7bb822696a2ull,
0x8234542fc8b9ee1aull,
0x823607feee678846ull,
0x8236f807a1fa0a81ull,
0x8236ff29bb61105aull,
0x823ce61c45a65b6dull,
0x823d51f3552e92caull,
0x823d5e68c31d0fe8ull,
0x8240d011e05b63ceull,
0x8248d305eb89593bull,
0x824a13c6d5945c8eull,
0x824a3c2f5fa2cdd6ull,
0x825a22f44f674992ull,
0x825ba8386012524cull,
0x8260f22a94eacf51ull,
0x8262ac3dafb98e59ull,
0x826312813f9c7cb1ull,
0x8267737a46297244ull,
0x8268a14a8305e575ull,
0x82698bfe779b8e20ull,
0x826a2c4afdbf1797ull,
0x826ac2c25b0adffeull,
0x8279145c099369ecull,
0x827b0f14824811dcull,
0x827ea1b6c0e63777ull,
0x8282c67b13196935ull,
0x8285585c61fe9dc9ull,
0x828bfed1441bec5bull,
0x828db9db7ab7fd38ull,
0x829571d71ddd18feull,
0x829e165b52408240ull,
0x82a28a6261aca018ull,
0x82b5fc3333c9d5e6ull,
0x82bd30f4cda845c9ull,
0x82bf838249b89e71ull,
0x82c037896d59124full,
0x82c3d3580d8f746cull,
0x82c538d7937b2b43ull,
0x82cbd31f2b8f45adull,
0x82d06d198d8e0545ull,
0x82d9c75a3fa945b2ull,
0x82da3494b85d60e1ull,
0x82dca4a68ac4322eull,
0x82dcdeb6adfa7667ull,
0x82dece8dde33c936ull,
0x82e250e93a7a1ae1ull,
0x82e78572859131e8ull,
0x82e817243a729541ull,
0x82f43d50b094256cull,
0x830460da820e067aull,
0x830709c784335676ull,
0x83085af0e8d1035bull,
0x830d2b6275b2aefaull,
0x8311c2efa7cc3b9cull,
0x8315edc0f9922298ull,
0x831732ca1c74ea9full,
0x83197672a4d9b706ull,
0x8323c357c3e9a09aull,
0x83293a6942072b53ull,
0x832b5fbdf03be9ebull,
0x832c2e78b1fa6ed6ull,
0x832c3a26d4cd96e6ull,
0x832c51fa7b8b5e9eull,
0x832cc6240618dd52ull,
0x832ddc61389aca80ull,
0x832ed62769b61a01ull,
0x8333c04a38aed7f2ull,
0x83382ad6503a175cull,
0x833cb89982e37d44ull,
0x8343ed83f7d40e4dull,
0x835429362a2c41c8ull,
0x83558dfd16ff2551ull,
0x835f3b8bf72e9e40ull,
0x8367d31c048eb54full,
0x837b292f3e8b4906ull,
0x837f23deccd6c049ull,
0x838193a451b53ae7ull,
0x8384c4cd67f022adull,
0x838b5d7be055ac8cull,
0x839df6afc3a251bdull,
0x83a0d48496199df5ull,
0x83a30303f7b26db5ull,
0x83a417172ddfd7f8ull,
0x83ae2f56a63ee24bull,
0x83af655001381f73ull,
0x83b4a14fd42418fcull,
0x83b4d7580e49a8a5ull,
0x83c6348efd3f5385ull,
0x83d32cd39a738d7bull,
0x83d5908616f3b0b6ull,
0x83d60a28ce5edd5dull,
0x83df36ce265bcceaull,
0x83e4246de2eae9e9ull,
0x83ebd605ef6a69d4ull,
0x83ec0d1f56f4db7full,
0x83eddd286967f505ull,
0x83f1a9b6fd57e681ull,
0x83f978c882482ee5ull,
0x84062ec909ac62f8ull,
0x84067df6695a9934ull,
0x840c0683b7d49d4eull,
0x8410eb63ca6c47e7ull,
0x8417fd87baf38028ull,
0x842165aba8669e44ull,
0x84272aec797b0075ull,
0x8429ba9fe3e3af9aull,
0x842be418324bf782ull,
0x843a4cb4dd573b16ull,
0x843f7270942d4eceull,
0x844067f1e28e5cc1ull,
0x84431ea819b525e6ull,
0x844550b3aa328446ull,
0x8456645adf44b0d0ull,
0x84573476970b14b5ull,
0x8459ee8e092c7e66ull,
0x845d4ad03ee72b64ull,
0x845d7bedce299861ull,
0x845fea2ee42a8043ull,
0x8460d76b09e3de2aull,
0x84697302c484f679ull,
0x84770c493ec50aa7ull,
0x847cf2e719dac3afull,
0x847dea5dd541135full,
0x84866a8e5be2540dull,
0x848ce384a1addfc5ull,
0x848f1d2c0175f66full,
0x848ffc5f342c9938ull,
0x849138b2265d652eull,
0x84955ea8c9d0ffbdull,
0x84992ce4d044ab18ull,
0x84a15897793b2b84ull,
0x84a18f38245d13bfull,
0x84a1ef8cf6588b8bull,
0x84a39eb09fa8e783ull,
0x84a41580caa64b37ull,
0x84a5924ad6844804ull,
0x84b08c129e777fc9ull,
0x84ba51bf043458f8ull,
0x84be01efe5662a13ull,
0x84c4c3375ff59a85ull,
0x84c9585f1306f141ull,
0x84cfc455feb78decull,
0x84d73434aa356b55ull,
0x84e7990bdfae4c2cull,
0x84e8db50a8119c67ull,
0x84e9d736c0c53ed3ull,
0x84f1ecf9a173c89full,
0x84f267ef9ad2105full,
0x84feb85e294148cfull,
0x850c8923039c6ae7ull,
0x850d3282250279d0ull,
0x851a4dcee0ba9a77ull,
0x851b81903445fd2full,
0x852356ace020ba49ull,
0x85238ae1abccec31ull,
0x852de1b5e4f516afull,
0x8535560c0ff6b84cull,
0x854b39d549bd1db2ull,
0x854df78997d11205ull,
0x855444532c533534ull,
0x855a93403e0a0ee7ull,
0x855ec43fa1333a58ull,
0x85615fb8bbe9d640ull,
0x8561c309139f9967ull,
0x8561e8936fb83acaull,
0x85663e7b8cde8a4cull,
0x856681294f46ee45ull,
0x856bef5820156e7aull,
0x85743d9dd60da682ull,
0x857bf3496e8a14e1ull,
0x857c717c08d46f7aull,
0x85a89f6cd624b82full,
0x85b807e67b91b19full,
0x85bc551905acb140ull,
0x85c6d3911bfc9d4full,
0x85cf3db9e6d7788bull,
0x85d50e0ed3e2b99cull,
0x85d6de5346f4a46bull,
0x85e00b338760d561ull,
0x85e037b15df6f526ull,
0x85e3085b431d4045ull,
0x85e5bf431f620bdbull,
0x85ea232a32d78d85ull,
0x85ec65fe0259da80ull,
0x85ed8924042dd22full,
0x85eff3d22176c676ull,
0x85faefb4c1f5f408ull,
0x85fc42e4898554dfull,
0x86022b877f9fc5b7ull,
0x860a9b61119dc05bull,
0x86179dc32afbdac0ull,
0x861b3f13b1c93a48ull,
0x861b7fb35a29c875ull,
0x861d48fbaf7f66cfull,
0x8627b2fb52c7b15cull,
0x862a0a98c44c3849ull,
0x862adf5e32a4efceull,
0x862c4e2615b7b233ull,
0x862e784d1b6120e0ull,
0x8630a6938d5d6bf3ull,
0x86322f9c63a9f90bull,
0x8633d1b9c20cb100ull,
0x8637a7c2975959d4ull,
0x863898dca63312fcull,
0x8639ad7d62c688cfull,
0x863dda42b3c8031bull,
0x863e4d0b4694382aull,
0x8642c1764e024e37ull,
0x864655d14159e2f1ull,
0x864731915cad072full,
0x864797cb77fd3b8cull,
0x864a9810c291d8daull,
0x865c311ed88bf2e6ull,
0x8660a31fba1ac442ull,
0x86675842470a6ef8ull,
0x866ba3d41eb2935aull,
0x866e9fafc40e374bull,
0x8681f6ef28f3004cull,
0x8683f54da8f36692ull,
0x8687455dc99052ebull,
0x86882153c680a840ull,
0x868a5cd3b481b39aull,
0x8694fccc32276ddcull,
0x86992e9fa88cd05dull,
0x86a723623b0cf0ebull,
0x86ac0af466530f87ull,
0x86ac84a2a0f293f5ull,
0x86ad3bb4b6b38eccull,
0x86ad672dce287476ull,
0x86ae368e1772f0ddull,
0x86af6ef8aee690cfull,
0x86c43829c9c2c5d0ull,
0x86c69688376c62f7ull,
0x86c7792c723c5918ull,
0x86cb1a16456a74beull,
0x86cec5826dbd0a7dull,
0x86d0fb46f6943c34ull,
0x86d3fc38db05f9ddull,
0x86d651053a8a85baull,
0x86db57598e147f04ull,
0x86ea86695f57872dull,
0x86f2797e43bb9375ull,
0x86ffaeb3c13c7532ull,
0x870f3ed204a539e9ull,
0x870fb5f4e93325adull,
0x871040b2822c282full,
0x87163ccf4eb0820full,
0x871b5aa6adc530e9ull,
0x871c8ca65834a4beull,
0x871de5d0e24d96acull,
0x87204c930efd8e6aull,
0x872ae6018084a219ull,
0x872c36f2113cb13bull,
0x873327453aaef2d3ull,
0x87375f9f87a1e973ull,
0x873a4ca1dcfe7fecull,
0x873fe5a84456854eull,
0x87420af7c27346c4ull,
0x87487a17c8dfc541ull,
0x874eb13ac4a54096ull,
0x8751ca3ea4cefb19ull,
0x8755700db855f12cull,
0x875bfa5af71128f7ull,
0x875ea5bd5c0de20dull,
0x876247feebd260b8ull,
0x876645dda0009b51ull,
0x8770edd333399980ull,
0x87724d74c43a81bdull,
0x87790e17c4bb5560ull,
0x877b89e9a964f4a8ull,
0x87868e2962ba9195ull,
0x878c7487a4c7c914ull,
0x878cb52b5b66f19dull,
0x8793cdd4f3c0f1c4ull,
0x879c422fa02a415eull,
0x879cec7d4a6a3242ull,
0x87a03b96f18e65c2ull,
0x87ac9b221ada82c0ull,
0x87ad4de1df55048cull,
0x87aeab0cd769d7c4ull,
0x87b16d7d5a8a560full,
0x87b39332eabccff6ull,
0x87cd0382a2767b26ull,
0x87d2f2f3ad779029ull,
0x87db0f1608a68f12ull,
0x87df285335775e97ull,
0x87eab3b37d25d2fcull,
0x87eb634800cd1e5dull,
0x87f66e4f0d8f49bbull,
0x87fc584eaf298147ull,
0x880394a1da1e07edull,
0x8804cb14ffcb4b22ull,
0x8806b9d4905312aeull,
0x880c0466eb9205bcull,
0x880cb5faae80cc3eull,
0x880e0fb37fc40204ull,
0x880f4a57d6f35523ull,
0x88117f97e0f99477ull,
0x88123dd7e1169a47ull,
0x8813526820a7ff1dull,
0x88137d3bab8bc076ull,
0x88164bcd23776440ull,
0x881747f8c5e984a1ull,
0x88196fbb9f9bbe3full,
0x8819ef6b7b2c5880ull,
0x881acd884e821556ull,
0x881b9ccebb205b01ull,
0x88215ee7b6447320ull,
0x882e8be94f687c76ull,
0x882f8940cd560400ull,
0x88318efe5b758de6ull,
0x88362e298ec282fdull,
0x883ca23778976e68ull,
0x88412b979432b660ull,
0x88445bb4e654a5b1ull,
0x8848c5ddc12ea629ull,
0x884a750d98d2ebebull,
0x884a7db1dc8a0655ull,
0x884ac5268606a5deull,
0x885269b06d2c9746ull,
0x8852a795d939550dull,
0x886d42297aa2dd2eull,
0x887d44bc4d6c3a94ull,
0x8880b70d49559ccaull,
0x8880befd5f56678eull,
0x8881f84c6f4f15beull,
0x8884eb44004ae07cull,
0x8888078374b21774ull,
0x888f6c6bf02a26e2ull,
0x88988e7177fd2effull,
0x88ae22ada07d49e1ull,
0x88b023ada6db3100ull,
0x88b34d413fba5c37ull,
0x88b4b78f6a1a1cb9ull,
0x88b90018da203021ull,
0x88ba54bad0c62b23ull,
0x88bbc5473815a347ull,
0x88c09b79ad0d73e9ull,
0x88c6d6229c2ca9eeull,
0x88cbfaf80c60c89dull,
0x88cc407faa97389dull,
0x88d39311184f37d7ull,
0x88d638f4c07f7718ull,
0x88e3dfc1590f2b27ull,
0x88e89da831dc820cull,
0x88ec2ce1f92ac434ull,
0x88f3779092b0fd2aull,
0x88f656adce66fbd2ull,
0x88f76a97863746b1ull,
0x89080df158f2ba37ull,
0x890d622b75ee25acull,
0x890db6504503d778ull,
0x890f9beb64de2037ull,
0x89113ddd90c2cf35ull,
0x8913da683db1e28cull,
0x891a3af7957cce77ull,
0x891cb156d551ecf9ull,
0x892117bf25e18de9ull,
0x8926c95afc05d95bull,
0x8928b4ec350873a2ull,
0x893064266eb7894cull,
0x8930727d38857e2cull,
0x89311ed74f3c3f94ull,
0x893259676302bc8dull,
0x8937ebb7d3d282d2ull,
0x893b4f00d424402bull,
0x893e90213224297aull,
0x89408223795cf1b7ull,
0x894d225339f845e8ull,
0x89506272d406fd41ull,
0x8950de74a50affe1ull,
0x895115d939749a08ull,
0x895268db4a269ac8ull,
0x8955292c36e93cc3ull,
0x8959363952f673afull,
0x895ad54716132df2ull,
0x895c560fea156220ull,
0x89635021651827e8ull,
0x89683f4f5b903ebeull,
0x897463fda0f8c419ull,
0x8976839d5198237dull,
0x8981df98db7eb4bfull,
0x8987edfbe2780cf4ull,
0x898ade6aa49dbe35ull,
0x898d63e21e9e95c7ull,
0x8995cda5f8a0085eull,
0x899a2d09e1b001e5ull,
0x899b9eb884735393ull,
0x899d41a48508a99full,
0x899d837bf24909baull,
0x899e78d4309b20a4ull,
0x89a0b7af6f1eb22aull,
0x89a29cb650fa87edull,
0x89aa345c68fe0ba3ull,
0x89ab576120568508ull,
0x89afac56ebd829d3ull,
0x89b805c50a2fcc6dull,
0x89b96168eaef8f9aull,
0x89b9ec0f173d9d43ull,
0x89c9c8fc2ad16dbfull,
0x89ccab701607722full,
0x89d721153d2a6867ull,
0x89daee4bbce98b3bull,
0x89db609e78fa81ffull,
0x89e4eb33d3af77baull,
0x89e96fbcfc35f010ull,
0x89ead1995e8a511cull,
0x89ec8b9cb40c0899ull,
0x89ee47c799de1337ull,
0x89ef9db5f36bb8e4ull,
0x89effa14bad26ab5ull,
0x89f06de54232fe12ull,
0x89f49d3483d7b617ull,
0x89f75f1af703cd61ull,
0x89f911ee9b1f52c7ull,
0x8a00c8de3707befaull,
0x8a01f2ac9cd7477dull,
0x8a064e79523f02adull,
0x8a0c43051a51074aull,
0x8a160a32d3633dadull,
0x8a1791b32cba9cceull,
0x8a1c77062bfc13ceull,
0x8a1cbc635617a661ull,
0x8a208ba86752268bull,
0x8a2376d93b6bc317ull,
0x8a263309309969fcull,
0x8a3482748131efa0ull,
0x8a3a9d105aa6b890ull,
0x8a3fce3cdd350712ull,
0x8a47c8c720520c94ull,
0x8a4b8cb724cb3d76ull,
0x8a4c1b554f66db8full,
0x8a4f881da0e507b8ull,
0x8a53c4c50d61870aull,
0x8a59f6a1e4aa8e99ull,
0x8a5ac1a059f09580ull,
0x8a5e92bb5677675eull,
0x8a63477141b4e686ull,
0x8a686ff18d42bb69ull,
0x8a6bf59fecd4dc35ull,
0x8a6cd683b34ac721ull,
0x8a6e054ea8c2fbe8ull,
0x8a6e7e9fb4973bcbull,
0x8a7146de8b7d93b6ull,
0x8a7391af8dc03853ull,
0x8a7a154272a9be10ull,
0x8a7a830218dc4f45ull,
0x8a8294bc90175b57ull,
0x8a836fd9bf844e9aull,
0x8a974fa8245d0d16ull,
0x8a9aed7186645002ull,
0x8a9d27bdbbaf1ef4ull,
0x8a9d79fad2c0ddc8ull,
0x8a9f9449d74b9497ull,
0x8aa430a0a971b08cull,
0x8aa74b02a39836f4ull,
0x8aa7c741a9cfad8aull,
0x8aa7f114d9bc9544ull,
0x8aacbe329fc3c1feull,
0x8ab7986232124a9cull,
0x8ab90ac7281579efull,
0x8aba163168064432ull,
0x8abc52f0b9b60976ull,
0x8abf7d34a293a3ceull,
0x8ac56a3ff67c53e8ull,
0x8ac6e6adc3a86692ull,
0x8ad52aaf6df318e4ull,
0x8ae1cfd84eaa9c7eull,
0x8ae5cfeb2aa08710ull,
0x8ae6dd3f3fe78285ull,
0x8af01f6c3cb40fcfull,
0x8af301207b5a3a23ull,
0x8af52df4738835bbull,
0x8aff1377125cb05cull,
0x8aff6906a21fbaf1ull,
0x8affa5ba65a15396ull,
0x8b0079aee5a7b3d1ull,
0x8b0d89c2369aa494ull,
0x8b15220f4a00ba0bull,
0x8b16e40741a6b8deull,
0x8b264ff3990c3c51ull,
0x8b2ad65e37e78143ull,
0x8b35862c9490b5eaull,
0x8b395fe8b22cf6c9ull,
0x8b3ff9bd079eccb8ull,
0x8b43bb0f4453e338ull,
0x8b619f6954ef535eull,
0x8b64f635223bae54ull,
0x8b6a2f19865aa6d1ull,
0x8b7774835ca7cea1ull,
0x8b778be33dedaf79ull,
0x8b77d5c8239a43c8ull,
0x8b77d98a86afafc1ull,
0x8b78b8f42a0703afull,
0x8b794eb27119af71ull,
0x8b7a6e1085228464ull,
0x8b7beaafa2538483ull,
0x8b8009c6ca4f72afull,
0x8b88cdf0eb9f159cull,
0x8b8a8a16c41c711cull,
0x8b8ea282ab25552eull,
0x8b9c2ec0de26ecc5ull,
0x8ba2c67bf779df37ull,
0x8ba3780e605e7970ull,
0x8ba6fe8f8a840faaull,
0x8bb1a6b20d80ef6dull,
0x8bb22ab11329469eull,
0x8bc1ac93401192d6ull,
0x8bca77e114e710ccull,
0x8bd5500b38a5bd35ull,
0x8bed37a990e65308ull,
0x8bf91e21c0998a69ull,
0x8bfa3a331604885eull,
0x8c085525ad64459cull,
0x8c1283b615bd8b7cull,
0x8c2630cb68b2532aull,
0x8c3164aae71cff98ull,
0x8c32f7e96c85a5e9ull,
0x8c349e0517daf239ull,
0x8c3c75f57291abaeull,
0x8c3df5f98b7b3d21ull,
0x8c3fbb904f5112feull,
0x8c437762a03e0abfull,
0x8c4abfb0107120e5ull,
0x8c501f70d03752abull,
0x8c53c08c16d37ee3ull,
0x8c547592a6d022acull,
0x8c5bfe66068ecc82ull,
0x8c5ceebb87229436ull,
0x8c5d1b9c57b7238dull,
0x8c5ee35d162596aaull,
0x8c60ba36e58bca77ull,
0x8c613c7b7152879aull,
0x8c618eb610096defull,
0x8c6f5b91ac1ccb39ull,
0x8c70801a258f6ba8ull,
0x8c7adbaf9772f5baull,
0x8c7e27c1d9bf71aaull,
0x8c7e972cd15673e2ull,
0x8c80ad8956a6f7bdull,
0x8c88c3049bc221dcull,
0x8c8b9f47199e82d8ull,
0x8c8e70de1a7bdda0ull,
0x8c9c84873e237d70ull,
0x8c9e8d55927f30d7ull,
0x8ca1473fd051f062ull,
0x8ca62311497a4bb9ull,
0x8caa07b02120ac1aull,
0x8cada46375765856ull,
0x8cb0d812ed12cdfeull,
0x8cb27b3e7c8d9bafull,
0x8cb2f832b3d79733ull,
0x8cccf7c250be68f2ull,
0x8ccd09b94f20be33ull,
0x8cd026add2d9a978ull,
0x8cd2950cd11fca32ull,
0x8cd875582074fa81ull,
0x8cdccdd2fff62cffull,
0x8cdd4d34e341a845ull,
0x8ce3245c404ad585ull,
0x8ce327a3211e524aull,
0x8ce8b3e691012e1dull,
0x8cf21f91f98c1600ull,
0x8cff19c9c7016e9aull,
0x8d00f5564c26cb8bull,
0x8d01d2f3ff50bffaull,
0x8d02929dd17df8d1ull,
0x8d0a3c2b9cfd5182ull,
0x8d0e638d1ea04cd7ull,
0x8d1b9decfe951005ull,
0x8d26dee175522712ull,
0x8d2ccaeeaeb01cc5ull,
0x8d321db129f92047ull,
0x8d3a996954e1bc46ull,
0x8d3c2040bb7d7511ull,
0x8d3e533f5f16c267ull,
0x8d4bcf057f4dd2c7ull,
0x8d4d93a7be93bf5dull,
0x8d53d73922e59dd9ull,
0x8d5995771c0197a9ull,
0x8d60348c92bade2bull,
0x8d64b28b7ac09ca5ull,
0x8d69466cf058e85full,
0x8d708de1f9125e20ull,
0x8d7212e344582877ull,
0x8d82fc94e322127bull,
0x8d8479e49cc73130ull,
0x8d85e875f840c095ull,
0x8d89aba572206314ull,
0x8d8cf578e7ce3539ull,
0x8d90896ac18f3837ull,
0x8d96309c36b2672cull,
0x8d96b061e821f875ull,
0x8d9b10753fc169a7ull,
0x8db7642916943f61ull,
0x8dbbbc43d691cbacull,
0x8dbcb2fb530187fbull,
0x8dbf37290770d9fbull,
0x8dc510c1afd8546aull,
0x8dce3cc223f3cc31ull,
0x8dd63f5c74341f35ull,
0x8dd8c398762357f4ull,
0x8dde792fd8a5ab14ull,
0x8de45f3a05983191ull,
0x8df05e575aeaa460ull,
0x8e06b32ee73757baull,
0x8e0b55523ffd50b4ull,
0x8e0dd257eed1eaadull,
0x8e0f7e35f16793f6ull,
0x8e1eae55b6c84619ull,
0x8e25df4ded8d80f6ull,
0x8e29c193e0f37613ull,
0x8e3274e26cf4ce6full,
0x8e350ca3b423a10dull,
0x8e35f73f6c1cc117ull,
0x8e36b6be19861c8eull,
0x8e3ebfae94018afbull,
0x8e410372849b9f82ull,
0x8e44739f440bb3edull,
0x8e46408b729be905ull,
0x8e466a42759f76cfull,
0x8e4965fb74b5da48ull,
0x8e556f04e99eb0afull,
0x8e7010d55ad79693ull,
0x8e71d7bbf8692f81ull,
0x8e7d4a83bbda38bcull,
0x8e832875b0a4a6dcull,
0x8e842b49105ce136ull,
0x8e851c7edc1557f2ull,
0x8e89938855bf53f9ull,
0x8e91c7cccada2f01ull,
0x8e98079086d60b3bull,
0x8e9883adbe41f2c7ull,
0x8e9ceda7b8cde675ull,
0x8ea589969eaec188ull,
0x8ea7e1796164152dull,
0x8ea8ac8f3f0904f1ull,
0x8eaa765f14bde13bull,
0x8eb18e2cdc907320ull,
0x8eb197b19ab27e9full,
0x8eb222d5e8e1d8e3ull,
0x8eb3071d4bb8b003ull,
0x8eb688eb5ca2769eull,
0x8eb8b3445e630dc2ull,
0x8ec1d9eeca1aedd0ull,
0x8ec8016f249e7b20ull,
0x8ecbffb053673dddull,
0x8ece3fb6bdf20989ull,
0x8ed1b2c137180028ull,
0x8ed4c1e2138daa1bull,
0x8ee0a9ce30a12bc4ull,
0x8ee7a07e2e22a2c0ull,
0x8ee7bf6f115b8d8full,
0x8ef146aeae766e49ull,
0x8ef19c6290e2e1daull,
0x8ef8f0f3ff4d0e92ull,
0x8eff43a60bae8c93ull,
0x8f0425dccbb5bf3dull,
0x8f0ecdd609cc6fd3ull,
0x8f10b8b3010bd2bbull,
0x8f10e7f07c2c8261ull,
0x8f1cce937888ad23ull,
0x8f1cceb75540e123ull,
0x8f203f88cfd8917eull,
0x8f225db38329ba97ull,
0x8f2ac2fbfc8ee780ull,
0x8f2cc80548eaf249ull,
0x8f364c1697fa610cull,
0x8f379b8aa634e6fcull,
0x8f3e9f1e9c85b1deull,
0x8f3f69bedd7b2e89ull,
0x8f42dc65227ffd9full,
0x8f47be058b4daa36ull,
0x8f4b2c885557e5c5ull,
0x8f4ee6b060c736a1ull,
0x8f7b231b51aaec3full,
0x8f81043138665c6bull,
0x8f8a573c41dc19ebull,
0x8f92740c9d5aea99ull,
0x8fa0aeaec6f7a5c0ull,
0x8fa3c94021178551ull,
0x8fad1a1be364a0deull,
0x8fbd4bd17e276a2cull,
0x8fc3cd36fc1d18faull,
0x8fc4df47b80731feull,
0x8fcb2b9ec1669822ull,
0x8fd0bdb0401afee4ull,
0x8fd7d80342cc8b3bull,
0x8fd9812f9073bedbull,
0x8fdb1d4c8234e3a2ull,
0x8fe0c140a9fa4eb7ull,
0x8fe0e51c75f69ff3ull,
0x8fe298515c7b6f63ull,
0x8fe4e0b3f97f9b18ull,
0x8fe8d576313a77a4ull,
0x8feb920c60b7878bull,
0x8feccc4bf6cc5116ull,
0x8ff49aeaa37fbbf8ull,
0x8ff645e5a8b39501ull,
0x8ffc8f7635699d87ull,
0x900f1bdd32d79e89ull,
0x901792baf03be967ull,
0x901aebdce5880a68ull,
0x901dc989b7bae10full,
0x9022aa9ab1e21d38ull,
0x9028c3ec22a18bb3ull,
0x9038da166ec87f9bull,
0x903b642c79148121ull,
0x903bdb5ab550333cull,
0x903f2dfcbdf5ef6eull,
0x90433208a2bb7bb5ull,
0x9043eb267fdb53e7ull,
0x90459c0d66c77da6ull,
0x904669396f311712ull,
0x90470ef93ce2296dull,
0x9051589a771f9d4cull,
0x90528f74fadbcd8dull,
0x90539e0d9b1063ddull,
0x90597776261be4c2ull,
0x905a8baac91b56afull,
0x905c9fb658ec5806ull,
0x90623a1b2a7575ebull,
0x9064d491c8ae2396ull,
0x906df92c7638fce9ull,
0x90783d1b228894a1ull,
0x90784be1fdd8ca85ull,
0x9088828001588e14ull,
0x90890a6f4de45d3aull,
0x908de3ddead2bda3ull,
0x908e8f892c1309ccull,
0x9094a7a9cc958c3full,
0x90975f808ad20375ull,
0x909a8de10e7f600bull,
0x909ef61bfe7186a7ull,
0x909f8e7447360228ull,
0x90a96185f24964c6ull,
0x90a9fb676e322623ull,
0x90ab726573b6e74aull,
0x90c52f0505ef1c8cull,
0x90c8766659162aa0ull,
0x90c907e3ee00af19ull,
0x90c942e7db2f3302ull,
0x90c9cac39869e1cbull,
0x90d9471d98421730ull,
0x90dd44a204b68b31ull,
0x90e5559cb1c41477ull,
0x90ec689a410ced5cull,
0x90ee01cc18f64c4bull,
0x90f71f71a6cef2daull,
0x9100f1b340951f9dull,
0x910f65cac54e5bb8ull,
0x911a5dd93b458d93ull,
0x911a821bb36ed1a1ull,
0x911aef5812b934cfull,
0x911f65c525f49112ull,
0x91311657aec8e762ull,
0x913212c4c1d0b282ull,
0x91349756e656308eull,
0x9135b231a7ca4a00ull,
0x913a247a457d96fdull,
0x913fc6d7219c4671ull,
0x91429561de281308ull,
0x9146f911fd6f1651ull,
0x914b3d6a731d5ecdull,
0x9155fc497f974537ull,
0x91673253b4a8154full,
0x9168086711eb9274ull,
0x9173ad38ab97540dull,
0x9177225189f8985dull,
0x9181a9107ac60562ull,
0x91868d5617c7ad6bull,
0x918ac2233fc83f13ull,
0x918b0a7df838e076ull,
0x9193a478b6bccaf2ull,
0x9196ccf62e23a51cull,
0x91999eff1667cbe0ull,
0x91a3603507c2d3d3ull,
0x91a75878f8021e74ull,
0x91a7e1c92c06f069ull,
0x91a9be42b1f0ba30ull,
0x91ad402731b40fceull,
0x91b3393254698debull,
0x91b5c47f43b85191ull,
0x91b76e5d96e4ee5aull,
0x91b96f167f32e175ull,
0x91bd0c7e84413b55ull,
0x91c031d6e073bd76ull,
0x91c46bc6697e49deull,
0x91ccc889300ccca2ull,
0x91d0f6a06ca06260ull,
0x91d1b1aad96a4870ull,
0x91dc07f632626633ull,
0x91dc625bf7ab778aull,
0x91df5a3f47a9db1aull,
0x91e3c1f57a494129ull,
0x91e60182f486d99bull,
0x91e8c5e665df04eeull,
0x91ea84518ee22c66ull,
0x91ed877d60a2f663ull,
0x91fd7e3640962a5eull,
0x9204e3782d8af61bull,
0x92058550f3c7e87cull,
0x920d6557be551450ull,
0x9212f50b1be8eaacull,
0x9213f02dcb943c0eull,
0x92170ac96d7f2783ull,
0x921eb43b96958ed8ull,
0x9223629cb0dd6a64ull,
0x9228cdb4f2002d03ull,
0x9229219124d2a364ull,
0x9229c4269a34c678ull,
0x9230327c78f06b96ull,
0x923104f31120248eull,
0x9231f2c18feec952ull,
0x92374899a76ff780ull,
0x923d3b8af564a3ceull,
0x92410e81e346d6b7ull,
0x9246229c9968e1b5ull,
0x9249b6ceb7b4c358ull,
0x924c86d851a08794ull,
0x924d1f880e363527ull,
0x925bc86cfcc69666ull,
0x925c956d82de0519ull,
0x92655a2a7cc31ec1ull,
0x9268ebbb87ad49a2ull,
0x926b6412835c255cull,
0x926b879362f848ccull,
0x926dc5d33de0f26full,
0x926f3c04ab0cf9beull,
0x9271ab799159a86aull,
0x9271cbae6ab630d8ull,
0x927217a7cf1270f7ull,
0x92810d2624f7ce9full,
0x928fd4af67383ad9ull,
0x92913ecd1ef46dc6ull,
0x92935cc5daf00576ull,
0x929669867396d083ull,
0x92975812674edb41ull,
0x929bbca62cf73b02ull,
0x92a78b00e23767a7ull,
0x92ae1b20604e02e4ull,
0x92af2025a3ed93dfull,
0x92afea894c4190c0ull,
0x92b66f3c79a821afull,
0x92b7fc68dd12af86ull,
0x92b9b51381030fa9ull,
0x92c4028baaa7eebbull,
0x92d080fe0507118aull,
0x92d7176872ddfeceull,
0x92da808274adfbaaull,
0x92e1173dfdac5ba9ull,
0x92e2b7599037d450ull,
0x92e6f93debbed328ull,
0x92eede96445faa35ull,
0x92f53049ad936318ull,
0x92f56c6cd0414c32ull,
0x9305852102129c4eull,
0x93077597c0fe8b54ull,
0x9309e29ddfff95d6ull,
0x931d737d59bd2463ull,
0x9322a4a886ff0781ull,
0x933227429737631aull,
0x93363c7ac459e06dull,
0x9347f74826967050ull,
0x934de822610fea64ull,
0x935324adbbc8f81full,
0x9355ed2cee7d91d8ull,
0x935869f8c754f06bull,
0x935ae331827e5594ull,
0x935b0b78e71c4beaull,
0x935e8c570747f88eull,
0x9363314fedb2add3ull,
0x936c1e6c397cdd77ull,
0x936c5ff9866c0882ull,
0x936c9b404f5285e7ull,
0x9372d965ef180364ull,
0x9381471f58b19da0ull,
0x938550fe146407e3ull,
0x9388af0e0a9cb986ull,
0x938acf5ef842ab0dull,
0x938b5036b597b8e2ull,
0x938e3246797e1381ull,
0x93981703d7fd0bc4ull,
0x9399207d116eb803ull,
0x939f0e0ec1c95a7bull,
0x93a9985325219e69ull,
0x93b29c48ead0cd52ull,
0x93c1842557ae98e8ull,
0x93cba92ad350bc03ull,
0x93d0aaf8c1063efdull,
0x93e8e17c7b39c3b5ull,
0x93ee26032e2bd80aull,
0x93ef99a0d4a90d4cull,
0x93f1a210dcab30f2ull,
0x93fb791ee8162494ull,
0x93fbafb8b1194664ull,
0x93fd73db97b26863ull,
0x93ff1b365e48db8cull,
0x9405f0d46fd00482ull,
0x9405ff96193fd1baull,
0x9406b4d4ceb6338cull,
0x9409ef320352acdcull,
0x940df66aa870df52ull,
0x940ecd4ebb8fc498ull,
0x94262529be8d2a48ull,
0x9427c3941548300dull,
0x9428503a5ce3699full,
0x942aaf8272e2eb67ull,
0x942f606d0d469974ull,
0x943339d4d6d7a044ull,
0x9435cfcae2855513ull,
0x9438e07d48ba2c81ull,
0x943a375ee5ffc5b3ull,
0x943d2be1e2b545d7ull,
0x9444c0216fe4151aull,
0x94495b894c9d95cfull,
0x944c1922abadbacdull,
0x944d1298e315b379ull,
0x94521e82d9bbb6a7ull,
0x9454283cd7d8fce9ull,
0x9456f46210f1aba5ull,
0x945ce4638a33f786ull,
0x945ed3b4a6dbb472ull,
0x9467a613fc89b2a5ull,
0x947030480bce18dfull,
0x9470a010c1f8b475ull,
0x94779b7073fa14b2ull,
0x9479707f887fe1d8ull,
0x9480f0519996f63dull,
0x94837e0b80c3b554ull,
0x948c7d0ef084bdc1ull,
0x948df7cb95fab39eull,
0x9497a81f647aba6dull,
0x949ffec215ad7317ull,
0x94a584f33bc42c0eull,
0x94a7639d9d475d7cull,
0x94a792e41974ed41ull,
0x94a7bc91db5c6624ull,
0x94a89003762f57caull,
0x94a908453531ad6full,
0x94b311d787acf43cull,
0x94b8829ab377b4e8ull,
0x94ba5774f12af73dull,
0x94bb4ed4c6431c1bull,
0x94cddca822a31b97ull,
0x94d3dc5e06232491ull,
0x94d85a01aaffcb30ull,
0x94d9caa69770c2efull,
0x94dd7982c4936673ull,
0x94e2b991fbd1f864ull,
0x94e44902427142bdull,
0x94e8b3c9c4d6d226ull,
0x94ea0dc6b2ab7a3bull,
0x94f3f33e234de990ull,
0x94f43d48e7c1db55ull,
0x9502ea2cc63b494eull,
0x95031e46588874d4ull,
0x9503adf287cb4211ull,
0x950910a5b58875b6ull,
0x950befb54e39e9f1ull,
0x95150eaacc7f12f7ull,
0x951606fd1015329eull,
0x951be16dac618632ull,
0x951f1722ae27624cull,
0x95201b06282531efull,
0x95205bba9f73a6b7ull,
0x952459ce6d9350afull,
0x952d97b0b69a3902ull,
0x9537384bab9793fbull,
0x953896d778219db3ull,
0x9546cf648f504300ull,
0x954e13a8b6cf8320ull,
0x955daffb939d3f29ull,
0x9560e1ebdfc5f93eull,
0x9566e06a84b76499ull,
0x9567f6945189bfecull,
0x956b29cfbd247e5eull,
0x956ce205dca7180full,
0x9570004bf8b08f6eull,
0x9571615324e42207ull,
0x957254529e917e34ull,
0x9573326ee0bbd0b9ull,
0x9575f129e1a9ddb6ull,
0x9580a210d4552c5bull,
0x9596422497df2b1dull,
0x959a812296705d61ull,
0x95a1c53aeec7d1c1ull,
0x95a48bf9723dd778ull,
0x95a98bf2114b49ddull,
0x95aa866aededc906ull,
0x95b1cd162e9d0eddull,
0x95c3a9e8d4749c53ull,
0x95cb8092f7dfce55ull,
0x95d031bf5a098952ull,
0x95d38edbe6d6c7e8ull,
0x95d5fa4b7ca917e9ull,
0x95d8ba91d444a7b3ull,
0x95d92ae00847c805ull,
0x95d9fad8d9e0de93ull,
0x95da870bdb576447ull,
0x95e28526f7204b3bull,
0x95ece562d77c4558ull,
0x95f1122187a2d275ull,
0x95f979ec86284906ull,
0x95fbba5b8cc689e2ull,
0x960706d3d6230bfaull,
0x9607bc7c3ee23ea4ull,
0x9608300d69271971ull,
0x9608a38686154825ull,
0x9608f5dbe55f63cfull,
0x9609aeb8e466e35dull,
0x961cab9b48eb767bull,
0x961e4c6978fcb76eull,
0x961e7e5439c702e0ull,
0x96251c898692049aull,
0x96251f6c298c8fe7ull,
0x9627ff971ca4c543ull,
0x962d54c2c62986c0ull,
0x962e005929dcb28eull,
0x96363e896b2822afull,
0x9636af535c1f8f8eull,
0x963849e7e5b434cbull,
0x9639e10285926328ull,
0x963a3ab15a9860a0ull,
0x963c85a5a2014acdull,
0x964fb9615d802337ull,
0x9652b1cd6681fae9ull,
0x965537ac36df9dc9ull,
0x965ebc1a7abb5f67ull,
0x9661a49212f2d6e1ull,
0x96638806fd9c64baull,
0x96642973b6c79725ull,
0x966b04ccc1d18449ull,
0x966d2fcd40089864ull,
0x967805536377ae58ull,
0x967a51762c0bf709ull,
0x967ad17706ed295bull,
0x968bf9920c28302aull,
0x968d527f8435fca2ull,
0x969e014e733b7b29ull,
0x969efca682e1819aull,
0x96a1f94f618dd276ull,
0x96b13b77d5dc1994ull,
0x96ce1ddc72fd4c5eull,
0x96ced9630c2bbcb7ull,
0x96d49386f07d1331ull,
0x96d5014fb59c26f2ull,
0x96d507b8e1eede68ull,
0x96dca959e3787e56ull,
0x96dde4b3129aa75aull,
0x96e7e56f75a8e1bcull,
0x96ea67853d6031b9ull,
0x96ed4424c637a9f7ull,
0x96edafca686cb971ull,
0x96edb25d3f29bd30ull,
0x96f516654e05ec65ull,
0x9703b58d4f3631b7ull,
0x97045709b498bd7bull,
0x9706c203be466eecull,
0x971c3d5fbcbf3e51ull,
0x971e6d9e9081f094ull,
0x9742ddd6df235231ull,
0x9744350be2f8d7e0ull,
0x97469485bdfd904bull,
0x974d566fbf41307dull,
0x9752f970e5c92546ull,
0x9759bce8666c8eb4ull,
0x9760207b9f360c32ull,
0x976351760aeff599ull,
0x976383756c6e833bull,
0x9769fc4a586f59b7ull,
0x976ac690e7023856ull,
0x976c82a58d008067ull,
0x97721eba5bd1cc91ull,
0x977a1d0c5ecef504ull,
0x97843de719328fc9ull,
0x97882c598711e8bfull,
0x978f4679f763c8b1ull,
0x9790788edb3ea9bdull,
0x97961790af86f238ull,
0x9797454e91e2de99ull,
0x979e65bfffdb161full,
0x979fc8bae62de868ull,
0x97a01badb0412490ull,
0x97a36f0401116a9dull,
0x97ae4df6d813d8c1ull,
0x97b4bf5af1965f05ull,
0x97b693366ddc7555ull,
0x97bc72a4443a3482ull,
0x97c164461f61196dull,
0x97cd392d73b01179ull,
0x97dedceaed95c74dull,
0x97df1ffa9d6b9f4aull,
0x97e4061cb969a2a0ull,
0x97e531bd522e66beull,
0x97e55208772b41b0ull,
0x97f061239fd29cbaull,
0x97f43e21c9d04c68ull,
0x97f77e9d3f9a14f9ull,
0x98028aee9e903467ull,
0x980473b97f3fac3full,
0x980521a0e3befc99ull,
0x980b69b9202afac3ull,
0x980b741ece5fe1eaull,
0x980c714917723498ull,
0x980e41cf6f5c87a1ull,
0x98125bec2d1e32a4ull,
0x98135a4f01846aeeull,
0x981acd08dce2ab37ull,
0x981e7651ce0491ccull,
0x982118a95523eae2ull,
0x9828d314c056ed0cull,
0x9829ac9b05328949ull,
0x982a8c7e05696ed7ull,
0x982df7c1b4272938ull,
0x982f7be1ec3662a2ull,
0x983143b2926fd9d1ull,
0x9835c5a5a3f767b2ull,
0x98378a01c83bb6a0ull,
0x983a0f7572804aa0ull,
0x98464bf3d46492a0ull,
0x98469c6227b10b4bull,
0x984873f392e070d6ull,
0x984e09eabe53d1cdull,
0x984fae5131b01fcfull,
0x98677bf9ff8e2bbdull,
0x9867a7e86962d458ull,
0x98689cec2cf2add1ull,
0x986e968cab3820afull,
0x987040232ac99641ull,
0x9872f2c1c35f6109ull,
0x9879559475feef63ull,
0x987ac01d727cc8e4ull,
0x987f216bc20070b3ull,
0x987fd426b1fa275bull,
0x988093a5d9e3f016ull,
0x9881d64a038c4957ull,
0x9884547611806bb4ull,
0x98861770e3541a53ull,
0x98867b4b3572b577ull,
0x9887569026ddf7a3ull,
0x98899f0cefe1e65full,
0x988e68f739b8ee59ull,
0x98912283d5e1e38cull,
0x989d4237dbadc982ull,
0x98a1933c76fbf100ull,
0x98a2d721c068e80eull,
0x98a3276f9f08b7a3ull,
0x98a4b1bd5e7d22fdull,
0x98a62fe4e56dcd48ull,
0x98af0096ccefdee3ull,
0x98af165385eb8781ull,
0x98b120e63cef6580ull,
0x98b2d008e5053173ull,
0x98b9148f1f94aeaeull,
0x98b97ccec05a6ab0ull,
0x98bb6f43532953f7ull,
0x98be3c81c93b40f6ull,
0x98c613b96d7f1ff0ull,
0x98d192d48b1cd0a7ull,
0x98d31ab544cce337ull,
0x98d33bf56d814f6aull,
0x98d5630048d48ae0ull,
0x98e385a078ecf00cull,
0x98e670d353483f92ull,
0x98e68499c595d7abull,
0x98ed30804bc8743bull,
0x98ee959791e68147ull,
0x98f50d1e0d6ccef2ull,
0x98f822dc4f944587ull,
0x98f8585d3a9b9a2cull,
0x98fac069c104906eull,
0x98fdc38d3c277582ull,
0x98febaea091fddc6ull,
0x98ffa07ad7d789a8ull,
0x99042e6f7d4990d9ull,
0x990d415fca4d8e4full,
0x9910b4db55843f06ull,
0x99245fd0d19e2ca2ull,
0x9927e55bdba9dbecull,
0x9929186d2d2487a5ull,
0x992da717d5bec5b1ull,
0x99333c18935d6a6full,
0x99339325458298b4ull,
0x99371520a4611da8ull,
0x993e1688f5eeb287ull,
0x994679f687f6eef2ull,
0x9957078cdd6034b9ull,
0x99587343c51982a2ull,
0x9958c1702f86e110ull,
0x99591dfc244dc880ull,
0x9959286e3719ed15ull,
0x995a342f6c33efb8ull,
0x995fdf3675a16fc1ull,
0x996024e8ef3e227cull,
0x9969ed2649cb5e79ull,
0x996b113afa9b42acull,
0x996c5a7c9ee054bcull,
0x996f526c9aa5d1bfull,
0x997021cdb94dfcb9ull,
0x9972d55b4c38f17bull,
0x99769f1801519962ull,
0x997d6d264e81a263ull,
0x9980927b0409045cull,
0x99811497d4126a36ull,
0x99835018e09247faull,
0x999cc83cad2bd8ceull,
0x99a348e013b8569bull,
0x99a4b552986bc110ull,
0x99aa5a00fdb9fed8ull,
0x99aaf276df277a38ull,
0x99b254e438a27914ull,
0x99b3009475f02958ull,
0x99b6b920bd765ef5ull,
0x99be7840fda83fb7ull,
0x99bee86ed5f1a52dull,
0x99cbfdf5b8c5f345ull,
0x99cd1ee66e9d1aa5ull,
0x99d1f14bd45a998eull,
0x99d313e1b66aed40ull,
0x99db11649a6379b6ull,
0x99e66a267dd186feull,
0x99f26f367be91dbeull,
0x99f4fd25dac6fb23ull,
0x99fab3ee5a33aee3ull,
0x9a03a976fbd8e156ull,
0x9a047aadd71a1cf3ull,
0x9a0506fc9fd70903ull,
0x9a08183e9b6fd74eull,
0x9a0c92dcc24a289eull,
0x9a0dc92f4bcb2863ull,
0x9a156eaf5503e3f1ull,
0x9a197010edadae77ull,
0x9a1c62bb4da3d3f7ull,
0x9a20c7fecb7d81d1ull,
0x9a21bd588c058ad3ull,
0x9a2344292f75a0aaull,
0x9a30a1cfc1153273ull,
0x9a392b1bff4cbf19ull,
0x9a3cac2925f581f0ull,
0x9a3dd1efeecd6b13ull,
0x9a3f4fe0cea8b490ull,
0x9a46ad1425597009ull,
0x9a52b5f2528abebcull,
0x9a590394bd863d45ull,
0x9a61fcec919b30e8ull,
0x9a622e313ef70f02ull,
0x9a6615299fb5cda6ull,
0x9a7665e3619d0f4bull,
0x9a7a8826791a0cf2ull,
0x9a7d5d1fa3bf80efull,
0x9a7eb4300139f2a1ull,
0x9a7f1d1bf272724cull,
0x9a7f69fc7fddc155ull,
0x9a866456c0b0f27eull,
0x9a8df5030dc4acf3ull,
0x9a8e3962c6331773ull,
0x9a91928b6a4831f5ull,
0x9a93c00faa91790aull,
0x9a93e256e9cffc95ull,
0x9a9e74bb9b3b50afull,
0x9a9fb6904bd7e22bull,
0x9aa052f65fd474d5ull,
0x9aa1997f4281a8ddull,
0x9aac4896dc34144bull,
0x9aaf7597e6255473ull,
0x9ab158706a93900aull,
0x9ab7b31bfa5f0ba5ull,
0x9ab7c5b0cccf2e5bull,
0x9acbc38d45307e6bull,
0x9ad3c8dad234a4b3ull,
0x9ad4c8e7ad80ea8dull,
0x9ad83fff97b5eb1cull,
0x9ad9b8a64c510b1aull,
0x9ae6a9943c59a3c1ull,
0x9ae9d7ed9e31faf5ull,
0x9aebce0e54229158ull,
0x9aeedae138a0acc8ull,
0x9af05bfe9cefb471ull,
0x9b0e30673a6200fcull,
0x9b0ea47ce8d4dbfaull,
0x9b0facd087092afdull,
0x9b15050fe01b05e4ull,
0x9b18c9e7a0934d73ull,
0x9b1f70d58ab982c5ull,
0x9b221193ee825b6bull,
0x9b25d0113e4f30b0ull,
0x9b271c883685756dull,
0x9b2b06e80bdf357dull,
0x9b2cdcf9b8a65bd0ull,
0x9b31fcb94c6b8727ull,
0x9b35fc153c1a8f5aull,
0x9b400a20b155fe93ull,
0x9b4044b3f37b2208ull,
0x9b45d73dc9d5bac9ull,
0x9b482562f52d5746ull,
0x9b59ff4728f056a1ull,
0x9b5f40fb91eaec92ull,
0x9b64194222d9c6f7ull,
0x9b651701e1eb6297ull,
0x9b67069148685deaull,
0x9b6ba79232533a5cull,
0x9b6be44681fe3a66ull,
0x9b6f679bd0d603b9ull,
0x9b71953687c8ca07ull,
0x9b82a8f589a8bb78ull,
0x9b82b274ac49e106ull,
0x9b841accd3cfd5b1ull,
0x9b86d5acfa42d250ull,
0x9b89ccdc970c08dcull,
0x9b8c2b94ca48256cull,
0x9b97236c9cc39449ull,
0x9b9b63eac6e3ab12ull,
0x9ba16e43303b9ecbull,
0x9ba1b1eb80ff8e59ull,
0x9ba26d0a70d25008ull,
0x9ba5d606703c543bull,
0x9baa2b631659b6c3ull,
0x9baa2fae7cd4d88eull,
0x9bac1a51f57d00d2ull,
0x9bb065fff2664ec7ull,
0x9bbd15e54d61591bull,
0x9bc5ae29d0cfa4c1ull,
0x9bca85739725a912ull,
0x9bcb54b929d8a519ull,
0x9bce4e3e28dd10daull,
0x9bce7e4a1ebde49bull,
0x9bcf2d6603e46456ull,
0x9bd9581f86aa232full,
0x9bdd9acdf633e711ull,
0x9be9b08735e737d8ull,
0x9bea411bc51e1657ull,
0x9bec85f7b74143a8ull,
0x9bf5361bdae234fcull,
0x9bf88923ffc91558ull,
0x9bfc525d33ddd751ull,
0x9c004ecf11edd299ull,
0x9c08f73811a827bfull,
0x9c0cf176fe192acdull,
0x9c14bf4506d2bab5ull,
0x9c28858d8b8f5de8ull,
0x9c29ce3990b90472ull,
0x9c2be3686132d1b0ull,
0x9c323e4fcebbd26full,
0x9c359f9f3b824104ull,
0x9c4172e5c667b4e8ull,
0x9c45721123751f29ull,
0x9c4572677222651eull,
0x9c45ecca1f59be22ull,
0x9c4ae1ef27dfb67aull,
0x9c580df2ce8e545dull,
0x9c5a02fa005c21cdull,
0x9c5ea879de40af39ull,
0x9c64097109cd9bacull,
0x9c654785c4f6b29full,
0x9c66597edee2181dull,
0x9c6915f624b98230ull,
0x9c6c4d9efb3f9a89ull,
0x9c6cecd4002f2104ull,
0x9c6d059064882790ull,
0x9c73387946da0a5aull,
0x9c734c1432c00a4bull,
0x9c736ebd533a8f41ull,
0x9c73b524b6971633ull,
0x9c76623c016a8a16ull,
0x9c8071196133f3aaull,
0x9c843f1189953b7bull,
0x9c89b22b8998c78eull,
0x9c91efe4414e5a4full,
0x9c941e108784ebe0ull,
0x9c9af57d69ce141dull,
0x9c9b3b7284e4a34bull,
0x9c9c7035a108418bull,
0x9c9cea551651f7f3ull,
0x9ca4077cc064c87full,
0x9ca4ed385c791ea2ull,
0x9ca50f29568de960ull,
0x9cb066a16ba79f56ull,
0x9cb0846aa6e7dc58ull,
0x9cb2fac16b2cbc86ull,
0x9cb782aaa6837573ull,
0x9cbfc9994a00b18eull,
0x9cc0038a5dab6a45ull,
0x9cc1b53dc2b77dacull,
0x9cd480a1f5e3bb01ull,
0x9cd5cd9d990a9961ull,
0x9cd82c52d8cd4df6ull,
0x9cd9426777b20ea6ull,
0x9cdcfc69f44b319eull,
0x9ce09775de5dfae8ull,
0x9ce13eaa66fb9d2aull,
0x9cf08b91c6741ad4ull,
0x9cf63cad509c3197ull,
0x9cf84a4c3ff25c0dull,
0x9cfd1e6723417348ull,
0x9d06a2d0ff9ab842ull,
0x9d077a26fa136c41ull,
0x9d100ef1ae2ec585ull,
0x9d13c81e376c1af4ull,
0x9d1f394942d97e91ull,
0x9d215fcfc1773268ull,
0x9d23306193bd4f9dull,
0x9d27dfb2c1143c29ull,
0x9d30b915eafdb9dbull,
0x9d383c57b264892bull,
0x9d397be0e546c49full,
0x9d3b4cf758bd23c2ull,
0x9d3ce54301dfa4d6ull,
0x9d3d0d8deebefdb6ull,
0x9d433b9039c91161ull,
0x9d46cd1c778f0e09ull,
0x9d4906ec0415279full,
0x9d49824e007e9a18ull,
0x9d49a6a0cb8c19c8ull,
0x9d53dea1cb89e0bbull,
0x9d55f7492b62a3edull,
0x9d5db4ef9c5adf13ull,
0x9d6470cb7a3cea0cull,
0x9d680e74ab848759ull,
0x9d6a1121a07e6685ull,
0x9d7251dbe9cb0fa4ull,
0x9d7477ae13e5cee7ull,
0x9d7eff8bdf1d0bfbull,
0x9d805e83557cfb7full,
0x9d82abf4f0d36efaull,
0x9d8723c6393ab60dull,
0x9d88ec8810ef5cf8ull,
0x9d8a212bbbbf484bull,
0x9d98b04e719970edull,
0x9d9b868e9d5e8aa5ull,
0x9d9e8bda894405a6ull,
0x9da00d9fbf8fd461ull,
0x9da35a14a7160174ull,
0x9da493755b96e467ull,
0x9dbb085b11623381ull,
0x9dbc0f759213fccaull,
0x9dc17d6edd909d51ull,
0x9dc50af7dbbfe79cull,
0x9dcb2990a2cbc6cdull,
0x9dcb881e803cfdb0ull,
0x9dd29b109672ad16ull,
0x9dd781eb90d5483full,
0x9ddc860495b4f92eull,
0x9ddda972c8b2e286ull,
0x9dddd8bdc85b9e99ull,
0x9dde0d0fabfdc607ull,
0x9de3ce379a738bb0ull,
0x9dedb84277d0bad0ull,
0x9df4ba59541df7a6ull,
0x9df88aea5d1c0ab3ull,
0x9df8c5ca70ed08dbull,
0x9e016e3a94513357ull,
0x9e045159696ac1efull,
0x9e0acff2d0d8637cull,
0x9e0f70e9fe0e638dull,
0x9e132d55082038c4ull,
0x9e15ee9387e4dab5ull,
0x9e1b9ef781e16168ull,
0x9e1e15632abee4f2ull,
0x9e1ea1df6dbe04a1ull,
0x9e21cbdb323bbfc4ull,
0x9e2c7600f9ddcb7cull,
0x9e33e2b9c7f8f730ull,
0x9e3f303dcec055c5ull,
0x9e42061e9e3a1b61ull,
0x9e4ae1d20633a094ull,
0x9e4df9d2fbaa5c53ull,
0x9e5b80dce624d19eull,
0x9e5ccbfd2c7f075bull,
0x9e677c3820e5169aull,
0x9e67c502bd7813fcull,
0x9e67ebca7fc09f29ull,
0x9e69b0a3ac67b5c9ull,
0x9e6a7240f8cbab4bull,
0x9e6d01c348392ce5ull,
0x9e6d9fd19974052bull,
0x9e6fcb51a28ab3ccull,
0x9e709c42512a8de0ull,
0x9e7410eb9c91a674ull,
0x9e7ccbc17e4c494cull,
0x9e864ab022a8a124ull,
0x9e87ef9b2d251520ull,
0x9e90ab869e087b6bull,
0x9e94adfcd7b73058ull,
0x9e9cb875c5a37221ull,
0x9ea266a52f39042eull,
0x9ea71cbb4f54a12bull,
0x9eb47e317ffdd24eull,
0x9ebd57eb42084609ull,
0x9ec7cc0c45fe90f3ull,
0x9ed22fd8e22a97f0ull,
0x9ed2744c5ea642a4ull,
0x9ed89c55990e571dull,
0x9edaf5798280efa3ull,
0x9ee0df8ac6ecaf29ull,
0x9ee1bf804c9e2c2eull,
0x9ee759f2cbbfd694ull,
0x9ee8e662e1e410aeull,
0x9eea483567338e19ull,
0x9ef13f9ac7fcd032ull,
0x9ef28fe2502fa02full,
0x9ef73e2d06fb97d4ull,
0x9efbcf722c430da1ull,
0x9f0316277e79e833ull,
0x9f0bc0391c328ea9ull,
0x9f0d9546c80277a0ull,
0x9f11cd2d041f527eull,
0x9f1411cc943e5013ull,
0x9f25166c45083747ull,
0x9f28e6db2f830946ull,
0x9f2a3f0d7b5fc0d2ull,
0x9f306946191b195cull,
0x9f4281c71750ac97ull,
0x9f4e542736cdebefull,
0x9f533aa194915518ull,
0x9f63f22da6068b4cull,
0x9f644f00491384cdull,
0x9f6810bcf7ec4447ull,
0x9f6a351cea0fe079ull,
0x9f6b809468b9b687ull,
0x9f6f3fced4bff2c8ull,
0x9f7cb199827e2ed6ull,
0x9f7d1f66634838c3ull,
0x9f86fb14d5dc5aaeull,
0x9f86fe6b59f2be6aull,
0x9f8bf9c01e416a3aull,
0x9f8cb2b6819c184aull,
0x9f8dc99a8e80b2b2ull,
0x9f90855679b47e58ull,
0x9f9c94c5d1d2892cull,
0x9f9ccd81e6a00dbaull,
0x9f9cda49e85d274cull,
0x9fa68de8d1b974a3ull,
0x9fa8c90b4076cf60ull,
0x9facfc13a4579d75ull,
0x9fb310422dcf096cull,
0x9fb954ae4c6e46deull,
0x9fba9ec70a4c560aull,
0x9fc8009c5e23c5d0ull,
0x9fccba69b1f8fc91ull,
0x9fccedf7d146db97ull,
0x9fd27ab4bbfc578dull,
0x9fd44c1437cc370full,
0x9fdf6b837612eb33ull,
0x9ffa39e8aa2de429ull,
0x9ffb577372c82aaaull,
0xa001de068a50624eull,
0xa005b2b3330ecdc1ull,
0xa00d6b5e195deb64ull,
0xa01181a6a29692feull,
0xa011b4def2ca1488ull,
0xa012b91f87c72626ull,
0xa016019f36424cfdull,
0xa0179433fe48613eull,
0xa019dd9dcd90e5eaull,
0xa02417cc1f925f7eull,
0xa0274f4e4687dbfbull,
0xa027ee03a19efca6ull,
0xa02b0a6c2d0dc096ull,
0xa02fcf33fbebe8b4ull,
0xa03594587cc4a9d4ull,
0xa03ad7c2b8698dd1ull,
0xa03e93ff14cb9167ull,
0xa03f596c6e00f94full,
0xa0460a41e11e7bd7ull,
0xa046795c4dca8067ull,
0xa04948280f0198f4ull,
0xa04f7eacc8be637eull,
0xa0551201bbc6157dull,
0xa0660425026ba91full,
0xa067def25db37e9aull,
0xa069d7476a4203adull,
0xa06ba894a07b47ebull,
0xa0793b4b532e0565ull,
0xa07b168b8f0fb8a2ull,
0xa07c386a4ea754ddull,
0xa080e05b01474cf9ull,
0xa081a5ee44ed4fd7ull,
0xa08525106dd19a51ull,
0xa085b38970d11385ull,
0xa08613c741883a85ull,
0xa08983662cd6047eull,
0xa08d3905de78537eull,
0xa08d3becff498a98ull,
0xa08f5dd8d1e88e63ull,
0xa08f90b46920d7b5ull,
0xa091056cdb8eab42ull,
0xa0967ddbaa7a0168ull,
0xa097f422fc965809ull,
0xa098a7cbbceb3e70ull,
0xa0a064bb83ad6b41ull,
0xa0add143b99d8babull,
0xa0afb31c12325b26ull,
0xa0bc0472470f226eull,
0xa0d3878a3ef32514ull,
0xa0d6185b307bb6b5ull,
0xa0dae96337361673ull,
0xa0dbb47a75ee3c28ull,
0xa0df15d5eef040aaull,
0xa0e5acae7ee1ceaeull,
0xa0fbea9dd42d5400ull,
0xa1025b9ef067e608ull,
0xa1054ab60144cc39ull,
0xa1094fb10b3a6014ull,
0xa10c59a35d5ca0feull,
0xa10c91fb68d99d2full,
0xa10eaacf7244a008ull,
0xa10eb1e31c0b79f8ull,
0xa110836d2cbe99b3ull,
0xa11e23ce85e81b6cull,
0xa12426612ed0a120ull,
0xa12502be5fb5fa19ull,
0xa126bc9f2bd1c3f7ull,
0xa126e5c95ddd8764ull,
0xa12815bdcd48091dull,
0xa12d8e5082ebd0e5ull,
0xa13195a1a1c8cb5eull,
0xa138b50baed77bdbull,
0xa13b133528ba97faull,
0xa13ce343efa9e46bull,
0xa13d373cbbb69c47ull,
0xa1452643fc704a11ull,
0xa145afeeebd7ae66ull,
0xa1468aa5cd697180ull,
0xa14cd05e4d9caabdull,
0xa1504b8e37ae1830ull,
0xa15533ebae2bfedaull,
0xa1599be21fb3779full,
0xa15c75b5a38d96beull,
0xa15d8081c46e462bull,
0xa160484a87c16152ull,
0xa16534513f195175ull,
0xa1698b04f9c5c494ull,
0xa1726e302125e3b6ull,
0xa172d93472948e94ull,
0xa175b1b6ebc537e0ull,
0xa176e5cea05d9b4aull,
0xa1792190edefa575ull,
0xa17f09de081051f1ull,
0xa1810162fcfdc65eull,
0xa181a2ca29375a0cull,
0xa187c340f361d1faull,
0xa18da07ea22bcbafull,
0xa198bcb9fa1fc77aull,
0xa199baf63faeb089ull,
0xa19b4cbfc478a2c4ull,
0xa19e9f0d5253f5d6ull,
0xa1a1367e52940455ull,
0xa1a27c66632c7066ull,
0xa1a6edf86f06dc35ull,
0xa1a6f92841e04d3aull,
0xa1ac2a3d7c380f0full,
0xa1b17f7db8a9175bull,
0xa1b1a4ae4647309dull,
0xa1b523e6b2044fa5ull,
0xa1c7e047f0614398ull,
0xa1c8d9c55ebdba66ull,
0xa1ca540301a4852bull,
0xa1ccbec5e184c472ull,
0xa1d5a100b7a8ba94ull,
0xa1d981064f16d1f9ull,
0xa1d9e6e819e0c552ull,
0xa1e6f3fdd646115aull,
0xa1e7b667f497e7a8ull,
0xa1eaede40e92f1a3ull,
0xa1ee43212acf6c73ull,
0xa1f0ca923c598313ull,
0xa1f1d7271999caeeull,
0xa1f42a220bad813dull,
0xa1f735ddd500c4c8ull,
0xa1fb3f6047396e8aull,
0xa1fe7479e7e548f5ull,
0xa20216e1befd7110ull,
0xa20c8f542f168ccdull,
0xa21c9a8102b1ddc1ull,
0xa22396935966b5bbull,
0xa223fa6ef0439a36ull,
0xa22ae718f1b53aafull,
0xa22b37dd25a411d2ull,
0xa22bf44e63afaa88ull,
0xa23152f10fd1d83aull,
0xa232dc2f9831e652ull,
0xa23c7eb7ce29dd1eull,
0xa23f0669deab8dadull,
0xa23f10179c95d9c9ull,
0xa243f0314c9b528cull,
0xa2461bbc66fcff8bull,
0xa247aa476bee5d06ull,
0xa248397970a8ac0bull,
0xa25ecf88750fc969ull,
0xa27599922de3d8d8ull,
0xa278955b8e31a6b9ull,
0xa27a84a2e0cfd979ull,
0xa27e5a2a203430daull,
0xa27eaee7dd279c9dull,
0xa280f5cbd6c91cc7ull,
0xa28403eb3db6e34full,
0xa285539adc78a7e3ull,
0xa288a220546b160cull,
0xa28ee2ffc3caaa03ull,
0xa29310ae3fc01bcfull,
0xa29772d397f6ae50ull,
0xa29a7958681120baull,
0xa29c6d55cb5f035eull,
0xa2a3fe945b540af0ull,
0xa2a8efb9af1f9af3ull,
0xa2abd96b6aa7cc1eull,
0xa2acc56316927838ull,
0xa2b26ab8202e9685ull,
0xa2b494f61aeb9f98ull,
0xa2b58334b08a3076ull,
0xa2beb3bd0a9dee9full,
0xa2bfe6eac7f14f38ull,
0xa2c97bcda495b57full,
0xa2d0faf520578029ull,
0xa2d529683445d16dull,
0xa2d896f464fa0386ull,
0xa2da3547600ba0a0ull,
0xa2ddb7198fdcd0bcull,
0xa2df3cc21882a442ull,
0xa2e2bb0ace10ab71ull,
0xa2e39f5dd49e9694ull,
0xa2eb8a4824b0b55cull,
0xa2f07c40779a7d3full,
0xa2f3b0d7d6d795eaull,
0xa2f3fb6503cc597bull,
0xa2f91b49f3ab7dceull,
0xa2fbf1a1e833d5e0ull,
0xa2fc0ad69ad9610bull,
0xa3027f703567ef5eull,
0xa307c141fc7c5d7cull,
0xa30e5da293bb1e94ull,
0xa30ec8b06503b618ull,
0xa3132f30c499f8c2ull,
0xa3181dfd0201d99cull,
0xa319ec1de876e4d7ull,
0xa31f920fb5d5fc66ull,
0xa320d3c8a184cf1dull,
0xa32b6621b72ab454ull,
0xa342a1e9e9e2732aull,
0xa359f6083785109dull,
0xa35c7f144f360094ull,
0xa35d792a8120decfull,
0xa35db29687cda0ddull,
0xa35ec3ddd7b3a752ull,
0xa36539bff9995bdcull,
0xa3682bf5f4f7d3acull,
0xa369b452ad0f42dfull,
0xa36e0b69775c7f91ull,
0xa373cdbcc130e517ull,
0xa37479764f016c1bull,
0xa377d075b1bed91bull,
0xa37dca823982b5ffull,
0xa381246c495b298bull,
0xa38c79c39837a8eeull,
0xa39067eb93ba3c7dull,
0xa3907930c4eb7154ull,
0xa39382c3a75cf175ull,
0xa398939dd013469dull,
0xa39cebf2c42910e9ull,
0xa39fbb8266d2bf39ull,
0xa3a66187ab8d9722ull,
0xa3ae4e01beb761adull,
0xa3b6a9ea84c490beull,
0xa3bbc0b148b92415ull,
0xa3bc04dfea18acf8ull,
0xa3bc113e36583346ull,
0xa3bf2030b5d419e0ull,
0xa3c08cf49136b56aull,
0xa3c42280ce1b909aull,
0xa3c4eb653c51eb4eull,
0xa3d8342efb83646dull,
0xa3da5d8c2ed8666full,
0xa3dff78b58e4adf4ull,
0xa3e261a3de69278aull,
0xa3e50b1002d241ecull,
0xa3e6ccfae5204650ull,
0xa3e7633cb4c6f4a4ull,
0xa3f3ace5788ce508ull,
0xa3f9bc8c090ebbe7ull,
0xa3fc069568113e0aull,
0xa4015757cc94f6c5ull,
0xa402be4943abf163ull,
0xa402d169e6160671ull,
0xa413dc5a33c10e30ull,
0xa4147bd0712efa21ull,
0xa416e90e37a44ad6ull,
0xa4198eca834b4a80ull,
0xa41bde35b2024890ull,
0xa420db379bb70a6bull,
0xa42857bbbddebfdeull,
0xa42f87fe61418655ull,
0xa433ee773b7f5244ull,
0xa43ea86ab7f675abull,
0xa4435c5513665886ull,
0xa443dd7602737b79ull,
0xa44a022aa3071525ull,
0xa44a6b16173ac261ull,
0xa44d4e5fda755847ull,
0xa45049d52752b18bull,
0xa4544b0f4f5c9ae0ull,
0xa456285fae151557ull,
0xa458abecc988483cull,
0xa46748908695f060ull,
0xa4676615ea43bd12ull,
0xa46e2f10b3ba51e4ull,
0xa477484f50bb3555ull,
0xa47ee83ce314ebbeull,
0xa480377d09b3b795ull,
0xa48f24e02769edb3ull,
0xa48f6965d0823187ull,
0xa48f6acb67b13507ull,
0xa4916c3017fd2a39ull,
0xa497a4f6fecc561full,
0xa4984b0c258fc1bfull,
0xa4989361ca07eccfull,
0xa4a486d415853cdcull,
0xa4a63a857d1a0bcfull,
0xa4a6cb8cdc7d68e1ull,
0xa4b19e762d0fae7bull,
0xa4be695147cb9cedull,
0xa4c3a711560b2c87ull,
0xa4c3c90805273ccbull,
0xa4c71869f1214bc6ull,
0xa4cf550250615c06ull,
0xa4d262b6a66191caull,
0xa4dfd2e40e164dbaull,
0xa4e2005ad22c2796ull,
0xa4e28e8f6e1fb575ull,
0xa4e7efeeaeed208aull,
0xa4ef7aad609fe925ull,
0xa4f02e81c6ecaf16ull,
0xa4f3dfa26dd55f05ull,
0xa5097478106b63f9ull,
0xa50f1b7bf867089full,
0xa51cad03b036da97ull,
0xa51fe1ce0e32c014ull,
0xa52303c307f9e716ull,
0xa5268df121f23696ull,
0xa5276e386a970a16ull,
0xa52bbd26040077f6ull,
0xa533fe2318c3e3bcull,
0xa53c3067e146b25full,
0xa53dcc800297b701ull,
0xa5406fd3669664c1ull,
0xa54189eb949947deull,
0xa548c738f7661dfcull,
0xa54fbe395f36c0d8ull,
0xa55204e62ebe4483ull,
0xa559d0f8fa34aab0ull,
0xa564b286a3977e23ull,
0xa56b512e823d91bbull,
0xa56fcbd2d9971c11ull,
0xa572545d05e826f1ull,
0xa58087f8bcf38896ull,
0xa585d86e5f166c89ull,
0xa58bc4e69573622cull,
0xa58feba4ae70e7bfull,
0xa591369f12a05cc3ull,
0xa5930a3ea8e24c52ull,
0xa59418d624d3a0e7ull,
0xa59aa8635532be9aull,
0xa5a10d8ae69979feull,
0xa5a2d5d6a98e2385ull,
0xa5a73e3f634a040aull,
0xa5a8e5483c8a2e90ull,
0xa5af7c8567891214ull,
0xa5b8ae24cb6d687cull,
0xa5c53f9a898c6114ull,
0xa5c59107adf40619ull,
0xa5c6429543f8ca6bull,
0xa5d461eec5ff04cdull,
0xa5d6707a7f1dec2full,
0xa5d8fd794f83503full,
0xa5daf19df5e4f46dull,
0xa5e1aa6793b84588ull,
0xa5e8bf0e4d737cf9ull,
0xa5ec6e4f6ba03558ull,
0xa5ed984f1a557f1eull,
0xa5ef23fc72764c45ull,
0xa5f84f395bb178d8ull,
0xa5fdf3220effaa4full,
0xa603ef014161c96eull,
0xa608158e21e3dfe0ull,
0xa61aca963d6a40e4ull,
0xa61f318cf7b4ed37ull,
0xa6206485847db1ebull,
0xa629c651ec7b1acdull,
0xa62a9bc5e2336174ull,
0xa636d5bb9f32e578ull,
0xa639e9da20d8e739ull,
0xa648e73628760b05ull,
0xa652d9c0c6e7b015ull,
0xa653eb4dbe878987ull,
0xa65bb167ea32f6f9ull,
0xa65bb71bba2f414full,
0xa6657c8aa13f07a6ull,
0xa66ab52948cb5b67ull,
0xa66c91ddf21ac458ull,
0xa674b325cc9b7603ull,
0xa677260005027fc5ull,
0xa67e833bf7ff7e2bull,
0xa680e53350f15b22ull,
0xa6824d9f2ab2807cull,
0xa683989341dc8d12ull,
0xa685ccccaf095b3cull,
0xa68d18a645f33c34ull,
0xa68fbc360548e43full,
0xa694515f47fae15eull,
0xa69521b385e637ccull,
0xa696b604f2f16537ull,
0xa697ebeeddfc2efcull,
0xa6aefc8340429451ull,
0xa6b54eb933462d5eull,
0xa6b906c560dc81e0ull,
0xa6b954761a1e2633ull,
0xa6bbfc46ea22789aull,
0xa6bd7b1e2c322424ull,
0xa6c0a7beccd76d2eull,
0xa6caa07fcc6cc1dcull,
0xa6dedeaa71ac742aull,
0xa6df09218f8b73a1ull,
0xa6ea17fea6f7d024ull,
0xa6f14e84d4bcb22bull,
0xa6f1b963e70885d7ull,
0xa6f48ec0be392479ull,
0xa6fd0433f75f9b11ull,
0xa701ebd25689b899ull,
0xa709102be8fcb619ull,
0xa70def148ade8ff6ull,
0xa70edf0984d70a90ull,
0xa710e72f2a2a1025ull,
0xa71f50920edb1196ull,
0xa720011fea96bdc5ull,
0xa731608d97bcd9b7ull,
0xa7396664eafebcebull,
0xa73c41c3ea65b148ull,
0xa73f690cb4d78f05ull,
0xa740d660e4035e32ull,
0xa7452eeb5be903c8ull,
0xa74816c0d814e34full,
0xa748926e76c002f6ull,
0xa7520f3bf96bafcaull,
0xa7543b6d6d4cc299ull,
0xa755fc52f321cdf4ull,
0xa7580fb2f85dc368ull,
0xa75efca58516c652ull,
0xa7684005c67ec7adull,
0xa7688b115f990ee0ull,
0xa76a997cc7980b77ull,
0xa76b67a217de8bf0ull,
0xa76bf219cc5e63b7ull,
0xa76d36ce6da091eeull,
0xa772329d181233d5ull,
0xa77899500f166e94ull,
0xa77f338edea8636bull,
0xa783600bbe1d898aull,
0xa78852bbc6fd722full,
0xa7922583ccb51205ull,
0xa792be3bab1f452full,
0xa7991342ddf63734ull,
0xa79df9382c6dfad7ull,
0xa79e995955982101ull,
0xa7a3bd26bf65fa96ull,
0xa7a60345bc61c4daull,
0xa7ab83732553d722ull,
0xa7abfdfe03994eb2ull,
0xa7b1359154e66648ull,
0xa7b5389f01509045ull,
0xa7c2a7c055f1154dull,
0xa7c6aff67e10d7ffull,
0xa7cd61cca42dfd41ull,
0xa7d2d22213d59b8eull,
0xa7e1d97dfee93ce9ull,
0xa7e4f3ab0d00041cull,
0xa7e70458e675f4edull,
0xa7e9e3de569b296full,
0xa7f37afa05522a08ull,
0xa7f71d752777fb5aull,
0xa8036367fbf04e42ull,
0xa80b77a43ed5dc2dull,
0xa80c446f2c16ac1dull,
0xa810742e42e80c82ull,
0xa812039cf8ab6defull,
0xa813d5ca0a625f4full,
0xa8170d1bbac4f5c6ull,
0xa81753107f68eed4ull,
0xa8181ec1f1a38b04ull,
0xa818add674b715b0ull,
0xa81d3fb7fd273bd4ull,
0xa81f4eef6a121b73ull,
0xa8256a2118bd328bull,
0xa827929f2b79aa73ull,
0xa840c6375f4c3367ull,
0xa849b3acaae2cee8ull,
0xa84c6f11f1232d26ull,
0xa84f09485085c320ull,
0xa85f43a4a45ba5b6ull,
0xa865aa99f0adaa3cull,
0xa86b5ca48e5579f2ull,
0xa8706a1594d0c295ull,
0xa87f17d8a473e1b7ull,
0xa8860f9b5d5e8795ull,
0xa890dea70168253cull,
0xa894052a011c51deull,
0xa895712796190873ull,
0xa89756c654d1254bull,
0xa899b5f8bdf97bbbull,
0xa89a4faf60b8eb2full,
0xa8a2087ccb89ebb2ull,
0xa8a32c99fe3c2e0bull,
0xa8a7104f1e5e319eull,
0xa8a81d7c70b7e22eull,
0xa8ad6c81aafc5b4aull,
0xa8b23d706e4b98c3ull,
0xa8b4d0c8dd26df00ull,
0xa8c0d47021700d6full,
0xa8d70ed111efacefull,
0xa8d78e96562d4aebull,
0xa8e3762a5b03a131ull,
0xa8e5abc7a58ee58dull,
0xa8e85ad973b09351ull,
0xa8ea8e74e7ae72b8ull,
0xa8ed130d70704cefull,
0xa8ee07a1ec9e5dfbull,
0xa8f65dd7d8817bc9ull,
0xa8f95e1302c15c5aull,
0xa8fa078c83abb181ull,
0xa904a4aee89cbd36ull,
0xa90d19d769ad71e4ull,
0xa913285d9b0bad13ull,
0xa921099cf10ddc10ull,
0xa9236345e554b423ull,
0xa923f69d0ab4d1d0ull,
0xa929b113344969e9ull,
0xa9335970929e16d7ull,
0xa9347a5bb7f283f8ull,
0xa935be6e6f34c7cbull,
0xa936f1783960e368ull,
0xa9425592ac0782fcull,
0xa942e228e9dc7cf5ull,
0xa95185b8f0cf335bull,
0xa959731ab5cf9e76ull,
0xa959f596f98fbc57ull,
0xa9618179c7deb2b7ull,
0xa976797a13446923ull,
0xa97dfcdaf91f60afull,
0xa97e01f27c841699ull,
0xa98c3df059c3fcc2ull,
0xa997bc1d9f778dc3ull,
0xa99e2721d7b07233ull,
0xa9ac5f16240f7ca9ull,
0xa9aceba6da572bdbull,
0xa9b0cf1fcb7b4051ull,
0xa9b125e46ac5e145ull,
0xa9b625dfeafa01efull,
0xa9b8ec21ba55c60cull,
0xa9bb85e5b5603386ull,
0xa9bdf70687bb6758ull,
0xa9c400b9cb389438ull,
0xa9ca6471a6e2d4bfull,
0xa9d9893c63574fd4ull,
0xa9eb52e00460771cull,
0xa9ef70bcb17efa8aull,
0xa9ef788ac27475d8ull,
0xa9f1e83f9c0993d7ull,
0xaa00279fefcee650ull,
0xaa0be65651a7bf35ull,
0xaa1e40c8110cd350ull,
0xaa2a63a33954f5c3ull,
0xaa300712b4821c3full,
0xaa30d779828590cdull,
0xaa3178bcf4c14123ull,
0xaa3274cda56280dcull,
0xaa3d8afa66af25a5ull,
0xaa45c67214485dbeull,
0xaa4a97969eb61196ull,
0xaa4e37666fdf394eull,
0xaa523ddb6ab8970dull,
0xaa55a98ae35413e1ull,
0xaa5c506232424026ull,
0xaa5e01edb48ab9c6ull,
0xaa627f3a0d1a766cull,
0xaa641a4b14f5c7f6ull,
0xaa6599458ac151d5ull,
0xaa6ccb06314db5adull,
0xaa70937187043229ull,
0xaa74df904288b553ull,
0xaa79d5a6675775c2ull,
0xaa7c2ea33d86891eull,
0xaa85dbd985b01c22ull,
0xaa8a024835ebe203ull,
0xaa8a1ee61d3ba905ull,
0xaa8c1b8bf685f2e8ull,
0xaa95034dcfe6ec58ull,
0xaa9f3423aff5e1adull,
0xaaa03a1fd8d265c1ull,
0xaaa5014b760138e4ull,
0xaaaaa67407671788ull,
0xaaad073aed49b457ull,
0xaaafb49d49ab3523ull,
0xaab7d3561fcb16bdull,
0xaac0aa659867703bull,
0xaac5b1c1e2a1869full,
0xaac799f3ff073f3cull,
0xaadb431a509d3ae8ull,
0xaae28162c53ac83aull,
0xaae38137b536759dull,
0xaaf65b06c83c6afeull,
0xaafa237d648ba175ull,
0xaafd07ac11150f37ull,
0xab0476e5ff57e055ull,
0xab067e1de1195e08ull,
0xab0a2ff44d021ecfull,
0xab0ac4506a266fc5ull,
0xab0d46f40cbc9334ull,
0xab10db4b3bb345aeull,
0xab15e303486220b0ull,
0xab19c74581fc2971ull,
0xab1a347714e90748ull,
0xab258ce72cec8fbcull,
0xab26d7cfdf1af51cull,
0xab275a00e5409f5full,
0xab27b85c820154e9ull,
0xab28f0bc8acecc7bull,
0xab2fd40b6d704313ull,
0xab3f501b18d587feull,
0xab42aaf33fe48f61ull,
0xab46d3f84c863562ull,
0xab480ec21c4e1e7cull,
0xab4bd13ee4542126ull,
0xab4e2a67d9a8d855ull,
0xab5390e0d966365aull,
0xab58a2410a4368f2ull,
0xab5c04b2f03a10d8ull,
0xab6048b86094da55ull,
0xab60febccc3dbf42ull,
0xab62c4fcd9e4aefeull,
0xab6cf8cc2b2fa0f0ull,
0xab6dd0ea23ac5c10ull,
0xab725c32ee5aee14ull,
0xab75832467990095ull,
0xab7e27daa040f7b5ull,
0xab7e9915c0866934ull,
0xab8181178c028e12ull,
0xab83bd6c58ae7e7bull,
0xab858ec2da395a6cull,
0xab883bdb48001a07ull,
0xab9060f95261d224ull,
0xab93269ee63c7030ull,
0xab959b813981b769ull,
0xab98a95e72a20d9aull,
0xab9966bf36be465cull,
0xab9a60898117058aull,
0xab9d9e3f1ebf7f21ull,
0xaba4b06a0aba4b6full,
0xabaf98765d3d6132ull,
0xabafcfdfa2a1c021ull,
0xabb3e3da1f724355ull,
0xabb76cba886f3f3bull,
0xabbb1b977a5d90ecull,
0xabbf7988e6269a6cull,
0xabc194682d1542c9ull,
0xabc3001f58330deeull,
0xabc6a1f1a08e2136ull,
0xabcf663bf4b6d101ull,
0xabcfdb392e12606cull,
0xabd2a80351cdf76eull,
0xabd59df29b8a1f0cull,
0xabd84980a64a9618ull,
0xabdb498961f9c57full,
0xabdc989d40f21cceull,
0xabdc9cd983a0781full,
0xabe2253b93fe4eedull,
0xabe686161f86684aull,
0xabf2734ac5737a1bull,
0xabf34deae09c52b8ull,
0xabf9666349eb92e9ull,
0xabff29844f444f8bull,
0xabff4608aed95b95ull,
0xac0837ac62e6f225ull,
0xac0a7a01d48335acull,
0xac0ee623cb089cdcull,
0xac12b7856939e96bull,
0xac158f00b54b9646ull,
0xac21ffdf8ec17076ull,
0xac267497f1cf56f4ull,
0xac27af294855b9f2ull,
0xac314ea466f60c56ull,
0xac38c0c3f3056b46ull,
0xac4d70b658ecec96ull,
0xac4dd770e0607dacull,
0xac528adac8e14f6full,
0xac54ec61659fb22dull,
0xac5765a8cdbf81a6ull,
0xac5caa5906303f47ull,
0xac7659684e3111cfull,
0xac797f04d7107d73ull,
0xac7cae38f0f10a55ull,
0xac801c29383f4791ull,
0xac801fdf3db25f2cull,
0xac828c90454c7b02ull,
0xac853b5585b92a34ull,
0xac8687d3d9b155c4ull,
0xac8724e22ca02e82ull,
0xac8c09dfb478621aull,
0xac94f29ed2445148ull,
0xac9712b369771a68ull,
0xac9ff8801602a512ull,
0xaca2714aea1eb4e4ull,
0xacaba33fa321d3f9ull,
0xacc099ed7ee319c4ull,
0xacc47bc1bd797e77ull,
0xacc56941e45783fcull,
0xacc82f8fb6e991a2ull,
0xacdd926433fc1d06ull,
0xace2256b48923ac0ull,
0xacef2f00fda826f7ull,
0xacf16c02c91e66fdull,
0xacf23309f63c2ab1ull,
0xacf61b3a9fde5766ull,
0xacf75093aa94ae0bull,
0xacfda3741d150d4eull,
0xad0761ff5fb86485ull,
0xad07835b8d2e9c4bull,
0xad114d3f2c49380cull,
0xad133175b6b0ffb9ull,
0xad1ea0a2336134b1ull,
0xad2c67163a59fe49ull,
0xad2ef407125560b3ull,
0xad308770fab650e5ull,
0xad336501f6200ed6ull,
0xad33d2f89589cf43ull,
0xad367ab53da7a58aull,
0xad379da3face81d5ull,
0xad37dc7a823be4ffull,
0xad3ec7769140f855ull,
0xad41d22ff8d70207ull,
0xad470b120dd3e8dbull,
0xad4c0fe20454633dull,
0xad4d3621c47da011ull,
0xad4ecc23055dfa0full,
0xad536cf10414584eull,
0xad55003e32a38e87ull,
0xad585fd98b1acea6ull,
0xad5bb48e5ce50141ull,
0xad5f8b03dacf89ddull,
0xad60d5062a8c7eb7ull,
0xad6654c3a30e7537ull,
0xad680239b22be1a3ull,
0xad734615b7226fd6ull,
0xad76263ef5340513ull,
0xad7ac9148db29020ull,
0xad7f383c758d96deull,
0xad888aa145c4675cull,
0xad88fc0c2ff57064ull,
0xad8949fef5e10767ull,
0xad8c38d675539583ull,
0xad8d63c13e7cc1c7ull,
0xad947b629648550cull,
0xada0f2275b33ecadull,
0xadb72a34d4a047abull,
0xadc19370f7016725ull,
0xadc3f5a0515a89b0ull,
0xadc581e3342209d0ull,
0xadd6219d761cf643ull,
0xadd68ec628e41f17ull,
0xadd6e7acc03c20d9ull,
0xaddbae9a54c31385ull,
0xaddcbe5f738f9106ull,
0xadded68fdbf89212ull,
0xade0103818495772ull,
0xade3e3566eb5892cull,
0xadf2ae4ed0fd9528ull,
0xadfe1930c231d6f2ull,
0xae0156ac4e3df6ecull,
0xae03dd0ce94c6c05ull,
0xae07c975d4ac01b5ull,
0xae14287fea773281ull,
0xae1709e65878f39dull,
0xae1d8d69d0560318ull,
0xae1d911e18df87acull,
0xae297307d5255397ull,
0xae2f3f6364baf7e8ull,
0xae33ccf26d00a3f6ull,
0xae385db957d86decull,
0xae3eb01230dec017ull,
0xae4118d711577041ull,
0xae4159a8894cea5aull,
0xae494705962f760eull,
0xae49d10074b93510ull,
0xae5ff81c948361f7ull,
0xae62392e0df9c003ull,
0xae6d118dcadd5941ull,
0xae73b43fef646e77ull,
0xae78a6eb6a3e248dull,
0xae8c3a2e2bda2472ull,
0xae8d603f3c8686f1ull,
0xae8db8d1ce65558aull,
0xaea678c418f409b9ull,
0xaea8530a76010db7ull,
0xaea98b4cc1cf1428ull,
0xaeaa8594c2c3487aull,
0xaeaf99182e5f3378ull,
0xaeb1ff5c8c98fb00ull,
0xaeb38506ed72570full,
0xaeb9b2115c7da5f5ull,
0xaebbc46d0f0438ccull,
0xaec09d53768ee18aull,
0xaec3bf10f821132bull,
0xaed02adba5ef4debull,
0xaedaa6da03bf9c3cull,
0xaedd47d6877fceceull,
0xaedeabdbcb529c6cull,
0xaedf33a91f89d1f8ull,
0xaedf8d5bdd2f2e7dull,
0xaee06c78dac6a1c0ull,
0xaee25fa319523e06ull,
0xaee70dd803e0568eull,
0xaee740f7826030aeull,
0xaeeb894078f75b73ull,
0xaeef37e32dfe7e9bull,
0xaeef535b077ae9fdull,
0xaef0803074ac66b9ull,
0xaef17c35297c583aull,
0xaefa40cde0f043a6ull,
0xaf040a79ec269a9full,
0xaf04ba2df2632aeeull,
0xaf05740778367d16ull,
0xaf05d3a34801eff6ull,
0xaf14c0660e3c5509ull,
0xaf1c7aedc9e26ccaull,
0xaf20fa7224521747ull,
0xaf21f571eef3a53eull,
0xaf245e329afffc49ull,
0xaf27a2c714943660ull,
0xaf2ddb21be06f2b2ull,
0xaf33c28d6ec68ba2ull,
0xaf3eff4ef1f00a8aull,
0xaf3f74e593cb43e1ull,
0xaf44e8ce22ea6cf5ull,
0xaf505d7404ead035ull,
0xaf53cb1e89470b56ull,
0xaf556e028ba58382ull,
0xaf5aa83d13f98fe8ull,
0xaf5b93fbab6f0005ull,
0xaf5fc6a65fde8552ull,
0xaf692e0f7523ed21ull,
0xaf6a8c1199f1c1ebull,
0xaf6acbfe095b3c27ull,
0xaf6b174603690d15ull,
0xaf6ec0977312072full,
0xaf6f438e033cf5f1ull,
0xaf71f453e4a96c8cull,
0xaf770e06f8130d85ull,
0xaf77392c2b771abbull,
0xaf7cfd69d3ace343ull,
0xaf92ba1cd7f88f9full,
0xaf934a2de75197ccull,
0xaf99464df8ec05b6ull,
0xaf9d03c3ab466b6cull,
0xafa50517883f7166ull,
0xafa63e34db1e1230ull,
0xafafe57ee53b9d72ull,
0xafb129e1aab98a20ull,
0xafb237e744cea383ull,
0xafbcc92ec35ebfecull,
0xafbd94a4f2800b28ull,
0xafc4f9a3ce67cee7ull,
0xafc9d5106df97e3full,
0xafd46d024514e99bull,
0xafdc97582b081000ull,
0xafe0c841befefb49ull,
0xafe696ab9e60c429ull,
0xafed9393f4f91d03ull,
0xafee185f262efcf2ull,
0xaffbd409383e3295ull,
0xb00eba9ff9a43e5cull,
0xb012699b5dd3634bull,
0xb012a6bdc979ecdaull,
0xb0136355dc859444ull,
0xb01928e472245a21ull,
0xb020b8a0821f78c4ull,
0xb026b18a49c0fa87ull,
0xb02b5c14e49fc50cull,
0xb031a6e9ca14c08dull,
0xb03db4a56352a834ull,
0xb03f3cf421b7f29aull,
0xb04136a061564abbull,
0xb0413b40bd4b0318ull,
0xb04bfef0219091f7ull,
0xb04c5d5f7d95f78dull,
0xb04de96092fd0c95ull,
0xb051da6c3a022ec6ull,
0xb056e3fa0fec15e1ull,
0xb063faafc93e3bdaull,
0xb0662cf56e73b101ull,
0xb06b6a0f1b920c29ull,
0xb076c720da16e40aull,
0xb078e2b7dba9f751ull,
0xb07ad5e95f941ca1ull,
0xb084b937735643f6ull,
0xb09a8d21747b7f0dull,
0xb09e93c11188c0c7ull,
0xb09fba172573b160ull,
0xb09fc504b475f140ull,
0xb0a42f3a69cdfd8dull,
0xb0a56dc687fc5ee7ull,
0xb0a83f15099ba28full,
0xb0ab9d845d2b6854ull,
0xb0acdf9ecf5f7d7aull,
0xb0ad410d5fb7acf5ull,
0xb0adaed490d21d58ull,
0xb0b14dd19cca421full,
0xb0b68db00aa072e9ull,
0xb0b7296d7d9e3a65ull,
0xb0c4c09a9c308dedull,
0xb0c59ec06651ef5bull,
0xb0cd7e4516cec37bull,
0xb0d1edfa2cd000c9ull,
0xb0d2c03be213edbfull,
0xb0d5b9568d8ab775ull,
0xb0dcc0ae793aedb5ull,
0xb0e88aa633fb084dull,
0xb0f2bf4099333565ull,
0xb0fb0ab93ffa19abull,
0xb0fbdc1c59c8e4b2ull,
0xb1016a25f6ef3195ull,
0xb102b648c4fa09e7ull,
0xb10c97cc430ff7c4ull,
0xb10dea6f077c1b33ull,
0xb10eb1fb296f59f0ull,
0xb1109f19d8e09b98ull,
0xb110baf26dd54894ull,
0xb1152b900b9b152cull,
0xb1168fd57e17da6eull,
0xb116c5f9a79a5706ull,
0xb119007f709a6654ull,
0xb11fc43b3efe13a0ull,
0xb12d56167d359953ull,
0xb12e080547d27323ull,
0xb1354ea7453ef93cull,
0xb13f5ce486b99dfbull,
0xb145df3aadf178a8ull,
0xb1513bdf04a48c11ull,
0xb1660556b823685eull,
0xb166f4d7f641aae6ull,
0xb16940dcae590230ull,
0xb174c98f6a566161ull,
0xb1769d527936fda7ull,
0xb1796d23156f1597ull,
0xb18762238b843939ull,
0xb18c725e5d1e1effull,
0xb1903c109bc7e4d8ull,
0xb191c8968cf95a30ull,
0xb1983548d0fb9e4eull,
0xb1992ab0c00b9e55ull,
0xb19c550fcd0e58f9ull,
0xb19d271870476b41ull,
0xb1a33b5bb8ce82dfull,
0xb1a51a49f893fe80ull,
0xb1ae467d8e6c22d2ull,
0xb1af8451ea858c2aull,
0xb1b5d793be6653caull,
0xb1c2ebead6fb5b59ull,
0xb1c86de6eaf035d7ull,
0xb1c987aad43f9830ull,
0xb1cd52bf6285db14ull,
0xb1cff7fe6952f184ull,
0xb1d51a7562d8a964ull,
0xb1e2e6393db7fe1dull,
0xb1e461ab4369631dull,
0xb1e9a87d353bcb68ull,
0xb1ed32cc75ea1bf6ull,
0xb1ed6b3f548fcf15ull,
0xb1eda9fdb5fb69c4ull,
0xb1ee1ba8dd72a530ull,
0xb1f4e327573f14ceull,
0xb1f58972e7b3bccaull,
0xb1f76cdfb3137356ull,
0xb1fe7284ce421fd2ull,
0xb205ba30a721c08dull,
0xb20854ca282d497bull,
0xb20bd98f5b531eaeull,
0xb20c8512bdf95449ull,
0xb20cd15688329085ull,
0xb215724b04bf2329ull,
0xb218b1328fe3b8dfull,
0xb225615d67b6e2cdull,
0xb22afc4206589662ull,
0xb22ca69e24652fbbull,
0xb2331c712cc29437ull,
0xb23e4851a6170202ull,
0xb23fcfbdf00cb686ull,
0xb245c91e034a2f36ull,
0xb24601c464f996ebull,
0xb247ece6c33b3b9full,
0xb248209c8ca25e3bull,
0xb2501d1156a23aafull,
0xb25540aeeff0e376ull,
0xb257cb755aca73c0ull,
0xb25a44ba3d884915ull,
0xb25dfff0166c2814ull,
0xb26158c930cba167ull,
0xb27577ab90c0a0beull,
0xb2768529c41bf5a9ull,
0xb27c1c2fcb366885ull,
0xb289a992a6df81edull,
0xb28ac288e1df6d8full,
0xb2a1beb3a189eb3aull,
0xb2aafb004bd7baacull,
0xb2ac0028b53dbf3full,
0xb2b4fbf36fe264d3ull,
0xb2bae7924b94f7b5ull,
0xb2be532577f385b7ull,
0xb2be939523c69c31ull,
0xb2bf3534ae3dd829ull,
0xb2c2998954fff1fbull,
0xb2c541e7cf1cee4full,
0xb2c59b9b439c1112ull,
0xb2c670d3e8cfad46ull,
0xb2c6828de089f4a9ull,
0xb2c6e8eee05e1e54ull,
0xb2d00791100746d1ull,
0xb2d2df920843c37full,
0xb2d37337d69df064ull,
0xb2d83bd1a62342bdull,
0xb2d8ce10558a7981ull,
0xb2d98a940ce0f1eaull,
0xb2dada4677b21977ull,
0xb2dc7fcf5eb33dabull,
0xb2e05f86b1ab2539ull,
0xb2e50ce097819abbull,
0xb2e72ecaf043886bull,
0xb2e9f11db173ee43ull,
0xb2eabee3b240db09ull,
0xb2f6dfdf41914ab6ull,
0xb2fab7c6077727ebull,
0xb2ffbae033ab4b8bull,
0xb30141ea36db6303ull,
0xb307156f8b14cea3ull,
0xb30d4c01beaa04e8ull,
0xb326bb3d8e8d5d73ull,
0xb32adc4e450362ceull,
0xb32b54745ec02cecull,
0xb32be931bfb2a69full,
0xb332b253adc82973ull,
0xb33e9f6b8fda93d2ull,
0xb33f724f6f3a4bb9ull,
0xb341c49539aca9bdull,
0xb34675fa0f8972f5ull,
0xb34859c3791bbcc2ull,
0xb34a1749709125d9ull,
0xb3538f2f566559e5ull,
0xb360f644e4b5cdd1ull,
0xb37174d5ddadb4f5ull,
0xb3745f9c6a43d55dull,
0xb374c3558af696bbull,
0xb38212d47c3b0d2aull,
0xb389e0f747c5aac2ull,
0xb39934dcc575ca2eull,
0xb3a1bd6269a002daull,
0xb3a839731a5cc090ull,
0xb3afccec6a40289bull,
0xb3bfb93423d81783ull,
0xb3c20c5b3b8b4538ull,
0xb3c42c493c123569ull,
0xb3c9c73bc3371ff7ull,
0xb3d7304042ae9ea2ull,
0xb3d73bf0394836b2ull,
0xb3d8a30b1c785099ull,
0xb3dddf28c21b52a5ull,
0xb3dfb18ec3643aaeull,
0xb3e3b9cb4075bba7ull,
0xb3e3c66c41cb1997ull,
0xb3e947837ec764afull,
0xb3ec107b107f9d52ull,
0xb3eeb1912618360full,
0xb3f38f0a7e7f6ac1ull,
0xb3f8eb8e063638d8ull,
0xb3f96d05be6352b1ull,
0xb401c27544f6f4f7ull,
0xb401fa037c437a4full,
0xb40ef75ef86659f8ull,
0xb4149718b012b342ull,
0xb416cc332c4e6f03ull,
0xb421db77c1a08529ull,
0xb42faed7c2e7f6aaull,
0xb4327780905573e9ull,
0xb4396a231de4f75full,
0xb4442f24a1a4ae3eull,
0xb4481d3cfa63fc16ull,
0xb44839dd4dd3507aull,
0xb44a2824531cb30bull,
0xb44e4f5554df593full,
0xb45557015df6e68cull,
0xb462a686ac9a7395ull,
0xb462d4fb638e3629ull,
0xb467f415ca4eb408ull,
0xb46f023049829254ull,
0xb46fcec8dcdadcfcull,
0xb4706bab39753eceull,
0xb47a83678b05833bull,
0xb47d2b0d8ef97306ull,
0xb4843f64e3ae6b64ull,
0xb484ab7859d87554ull,
0xb484aba41f5859b9ull,
0xb4875ee5ae460571ull,
0xb48c4921c23791d5ull,
0xb4947fce5df8adb6ull,
0xb498631c7b08292full,
0xb49c2bf42c0e4567ull,
0xb4a26894576b125bull,
0xb4bb87e12ea8fafbull,
0xb4be303c4e943906ull,
0xb4c6191aeff1a5bfull,
0xb4c7ea02362dbf37ull,
0xb4ce26724c9a6a0full,
0xb4d8061caa242f5full,
0xb4db486393da7393ull,
0xb4e14d5b688e1d46ull,
0xb4e357a40bab1725ull,
0xb4e53649a806eb4full,
0xb4e5ad51be3acd44ull,
0xb4f1b4cc0b1a463full,
0xb4f4eae49f0f7d59ull,
0xb4f80741cdb3d0e3ull,
0xb4f8557a59947683ull,
0xb4fa01741dcfcd7cull,
0xb503d5929d6240dfull,
0xb50f15e6000a4b41ull,
0xb5127dc3529f3a48ull,
0xb51ef0632f606b59ull,
0xb522918e3e3d0b7aull,
0xb522aaa893431d18ull,
0xb52406fa0ebbfac7ull,
0xb52b8f979b04da86ull,
0xb533ed39669a0fcdull,
0xb53802d5b5e658eaull,
0xb53a461224510c05ull,
0xb545703afcfe7e0aull,
0xb54975154e634414ull,
0xb54c4838dc63ce24ull,
0xb557d90c7f5e2d23ull,
0xb55ccd173dd50467ull,
0xb5603212ab6922deull,
0xb561e9ed782fb47dull,
0xb5637af67e70f0daull,
0xb563eff12cbea9e9ull,
0xb5678b2e87d8d8d3ull,
0xb576be90dd83f802ull,
0xb578d602f12e210aull,
0xb57b0bf669951d6cull,
0xb57f5085cf2935d0ull,
0xb58292183023253dull,
0xb5869cd285207171ull,
0xb58a7bf45f7a02a0ull,
0xb58e2366c07f5571ull,
0xb58fbe1403dc5fe0ull,
0xb59b96334a585141ull,
0xb59d57ee1f637b1eull,
0xb5a16b6e66df6e45ull,
0xb5a4884c51d771b4ull,
0xb5a6cb78828cf7d4ull,
0xb5ae5f83decc46adull,
0xb5b1aece5cb42008ull,
0xb5b35bd2cd7b28e4ull,
0xb5ba378f3415df24ull,
0xb5c5ba7204829e05ull,
0xb5ca3933d1ab807full,
0xb5ca6e84f8d581e5ull,
0xb5cb5acefcd0a04cull,
0xb5ebdaff6fceadddull,
0xb5f11227a974dfb7ull,
0xb5f16add72b76b92ull,
0xb5f31b4bb374eebdull,
0xb5f9533a84d8d5d4ull,
0xb5fbecd77074f777ull,
0xb60173fe917a5e70ull,
0xb6033ab644f17944ull,
0xb60bd8e086a19298ull,
0xb60c928ecd3d0207ull,
0xb60d7c221db3189cull,
0xb60d8a12fc271f0dull,
0xb60eadd3fbe01394ull,
0xb6130f8a7052d13eull,
0xb616f168b2718469ull,
0xb618b18da24255edull,
0xb62908d3036df885ull,
0xb632d5c05bedf08full,
0xb63542b9e51ba9bfull,
0xb63c11825e4c2c5full,
0xb63c14c83c60590cull,
0xb63cf537058358b1ull,
0xb649ecd319b160b5ull,
0xb6500357be87cd85ull,
0xb65e5fc420555cd3ull,
0xb6626cd7f678c2a4ull,
0xb6644261cb093f01ull,
0xb6696d731ba9223cull,
0xb66df9b7d6b8786aull,
0xb66f53a2f6e02a24ull,
0xb680b6df0e221f77ull,
0xb690f3b04e21c777ull,
0xb693be486a858066ull,
0xb69cd81cd23c4e15ull,
0xb69d40c0a1b83826ull,
0xb6ae3a66b05920b0ull,
0xb6b5580eb96cc8afull,
0xb6b792ad7eebf9c2ull,
0xb6b7f023d068e9e6ull,
0xb6bb69a43070b20cull,
0xb6bd578a702326faull,
0xb6bf68ea946d0088ull,
0xb6c5110ddc661976ull,
0xb6ca89f74e4a0e41ull,
0xb6d2687da665ba88ull,
0xb6d40506aa553514ull,
0xb6d6746a7180c727ull,
0xb6da0fd5a8bc66a7ull,
0xb6da7df7745b4f77ull,
0xb6df26d794a76e73ull,
0xb6e3eeb8ed918cdbull,
0xb6e86d65b6d15bb2ull,
0xb6e8dff779e09c1cull,
0xb6e9f46bac37d009ull,
0xb6eabe91bdc8d441ull,
0xb6ec08be4a14f8adull,
0xb6ec13eed893cdcfull,
0xb6eec4d308f4d3c7ull,
0xb6f3e312df6578d5ull,
0xb6f47896e1fb59d4ull,
0xb703398620091a35ull,
0xb70b4cdd9cd9232eull,
0xb710bf965b698299ull,
0xb715af757cf05a35ull,
0xb7289092a39dda90ull,
0xb728e37cd9d09ec3ull,
0xb7291b790fa76368ull,
0xb72b36f6b8188a33ull,
0xb732dd1ed80ada3dull,
0xb739d2bb05372416ull,
0xb73aafaffe609abbull,
0xb73ab1ebdf3d204dull,
0xb73f2f162b36e8d6ull,
0xb74340ab244ac81bull,
0xb7452d65955896cfull,
0xb74e693ca1a2af6cull,
0xb76807ea691ee49bull,
0xb768a7f8bfe501d3ull,
0xb76a8b47f9dc0ab0ull,
0xb77009204319b32cull,
0xb770796497aee855ull,
0xb7734436319321c1ull,
0xb7759a1470983725ull,
0xb77bb829a540b6f8ull,
0xb77ef5aba92ec53bull,
0xb78c5c36d4f0b493ull,
0xb79a6950e3a70d03ull,
0xb79f7635eadd9c70ull,
0xb7a12c0e4cbf365aull,
0xb7ab0b4488250d1cull,
0xb7acdacb7cd27e53ull,
0xb7b25808c2f06ffeull,
0xb7b4ab963ded7037ull,
0xb7c2240c7dbf2bfeull,
0xb7c5a9648a5ffd7full,
0xb7c8632e4ed94b30ull,
0xb7f32c7fae7846f6ull,
0xb7f4f7882cfa5e31ull,
0xb7fab14aaa2fa7e1ull,
0xb808ea7f48980bbbull,
0xb8123e361bcc3c62ull,
0xb813d83ff3470bbaull,
0xb81d61ac9e0f8babull,
0xb82aef7225802356ull,
0xb82db674d814ff0aull,
0xb82fab778fda9db1ull,
0xb83477d6c8d3176full,
0xb83935791800c599ull,
0xb840e6b157caf5faull,
0xb841056a598f1fb8ull,
0xb8496e6b378712daull,
0xb84c7351361780b6ull,
0xb84ce285c4753dabull,
0xb8506100fb34e414ull,
0xb8513ddfab3bf875ull,
0xb854885971f5c251ull,
0xb86715379ea4b07eull,
0xb86f6050be5a73f5ull,
0xb86fe3b213d27fedull,
0xb87c49794c733301ull,
0xb88436edef1887d0ull,
0xb887035af80515adull,
0xb8887d895dae7977ull,
0xb897bb544aea9f8bull,
0xb8a217eecf8efd4aull,
0xb8acc6f5e533b0aaull,
0xb8af5e7ec67e7c06ull,
0xb8b42b90111d2c0full,
0xb8b57934ae1095a4ull,
0xb8b94e9cb59bb1d0ull,
0xb8bb37bc47cd2d45ull,
0xb8bb9b7a0d767227ull,
0xb8befc295e05d84eull,
0xb8c5ac1722cf2cf7ull,
0xb8c8949bdf2c0451ull,
0xb8c9720156eb671eull,
0xb8cee0a3ede51022ull,
0xb8cf082ceab7f42cull,
0xb8d1e44d83a39ef2ull,
0xb8db16ee8c012236ull,
0xb8db8700658e6f37ull,
0xb8e18734cca9dbaaull,
0xb8f44b66801c6944ull,
0xb8f62e3be9d40212ull,
0xb8f6913d0c8680eaull,
0xb9043a52af8ceb3cull,
0xb904bc39a908f8f7ull,
0xb9055e3fbc3bf404ull,
0xb905e468b63e50eaull,
0xb9091f7a7afe91a0ull,
0xb90a0568943185d5ull,
0xb911dda5b4163218ull,
0xb9181367a01110aeull,
0xb926936815cad142ull,
0xb926dba82b47c52aull,
0xb92a142c8c169f94ull,
0xb92d0bcf22c78754ull,
0xb92dd910c221d3d4ull,
0xb9362ae2e4037e84ull,
0xb9423d0525009ee7ull,
0xb94417fe3b3103c8ull,
0xb94ae9614edf989aull,
0xb94cfa1e4b308f07ull,
0xb94f0b0b3c5f7f90ull,
0xb95f83e98acd9026ull,
0xb96867e4414afd16ull,
0xb9793610880a20a3ull,
0xb97a32d2ec6d6361ull,
0xb97fd35c97567608ull,
0xb9848c516401ba76ull,
0xb98b940db89f6b4aull,
0xb9943e20c6081517ull,
0xb99cf3c16f826ba3ull,
0xb9a2dbd9d96bd183ull,
0xb9a47f66a6bd0adfull,
0xb9a4905f260b3b29ull,
0xb9a890f8e04017ebull,
0xb9a9c573edb8e0a1ull,
0xb9ac92927aa64786ull,
0xb9ade2317a68281cull,
0xb9af7df01ad4684dull,
0xb9b72e9713b5bee8ull,
0xb9bb74299da6c832ull,
0xb9c1c095430262a0ull,
0xb9ca53b6eb05c476ull,
0xb9cfbd318f4b5c7bull,
0xb9cfd5d6a8c58352ull,
0xb9d2a2d5b5209fedull,
0xb9d2d06ccab2ddb2ull,
0xb9d89f0d1ced5ba5ull,
0xb9d9590c6a6dfc48ull,
0xb9de435961a65f07ull,
0xb9e0b1602321a42aull,
0xb9e6594b5facda92ull,
0xb9e8497a40f71358ull,
0xb9f66236192710beull,
0xb9f7577d7ba43bf1ull,
0xb9fffefcf2449238ull,
0xba035d1becd251c1ull,
0xba0c80eef7c9648bull,
0xba18834c01d9f466ull,
0xba1a5e18b34a330dull,
0xba278fad6a94912cull,
0xba2d168dff79e222ull,
0xba3295135d0be9d0ull,
0xba329afe71a07056ull,
0xba344f7f7aa88ed8ull,
0xba346f79df8c1a4bull,
0xba3e195dd1987b18ull,
0xba3e3cc482a4c009ull,
0xba46650267737cd4ull,
0xba57d2f73e9bde56ull,
0xba5897dd754e8329ull,
0xba590935c423f1baull,
0xba61cc2125193676ull,
0xba621ecf645effcdull,
0xba62c95df8c930afull,
0xba664498b9eff129ull,
0xba672e3f27ea86a3ull,
0xba6785b5b6a3d9e9ull,
0xba6ecb97d98db914ull,
0xba744ed9fb99de1bull,
0xba7496bbefdc5b5eull,
0xba773033af43f7b2ull,
0xba77cb50c2b6905cull,
0xba85f63a4e4e173aull,
0xba89b67994531463ull,
0xba8b917ed4321e1full,
0xba90f78be6bfb136ull,
0xba95075bccad60d9ull,
0xba9b130b572725b8ull,
0xbaa12e32474021d9ull,
0xbaa6aa1824fd4d04ull,
0xbaa6d9776f448881ull,
0xbaa761f239aac1b3ull,
0xbaaf59e15942de03ull,
0xbaafaf66575134e1ull,
0xbab53c5a15506ff7ull,
0xbab7d9bc87679261ull,
0xbabaa93dec779ac6ull,
0xbacb67e6a98e620full,
0xbacebf6d679e818cull,
0xbad490166be9ade6ull,
0xbad4bc8e53b61767ull,
0xbad56da7b638bc0aull,
0xbad630aeb7efe61dull,
0xbad82e032ea9fd6full,
0xbada4ff7d3f497abull,
0xbae020cc96c08cd6ull,
0xbae35dc0e06edf66ull,
0xbae829c56371986aull,
0xbaf0697d56f9cfd7ull,
0xbaf2784502828b11ull,
0xbaf357a13759e943ull,
0xbafc8a59131060ddull,
0xbafdde72f4f23ff3ull,
0xbb0765a696c2f14dull,
0xbb09bab9ee94ce71ull,
0xbb12bc742f5f3283ull,
0xbb2d1b7b31e58170ull,
0xbb319f2520524097ull,
0xbb32ba4338f174bdull,
0xbb36011a9460025cull,
0xbb3c4376a14f753eull,
0xbb59d3a401646b75ull,
0xbb600b46acd5ff60ull,
0xbb66dcc07724bc82ull,
0xbb6e1eec65eaf905ull,
0xbb7c694b442ae4dbull,
0xbb8286437c53d8aaull,
0xbb8a377bf257cd9aull,
0xbb96039ea868d4afull,
0xbb9c4a976b990977ull,
0xbba6d829e2cf8475ull,
0xbba73580e4f97d3dull,
0xbba7ddbf1e583ad4ull,
0xbbab0e9038dcc484ull,
0xbbae5794361b5891ull,
0xbbb074c8283ecedfull,
0xbbb68a5c59d018c5ull,
0xbbce419f35305de6ull,
0xbbcfafeebb493fd4ull,
0xbbd74030aaa76b11ull,
0xbbda648bde22fc40ull,
0xbbde94dc51951c67ull,
0xbbec1d67d2e743c8ull,
0xbbf0ac55ab5a3446ull,
0xbbf402fbf20cd85eull,
0xbbf47301f73a8e15ull,
0xbbf7ed13635a7399ull,
0xbbfa6cf46e2ffbb8ull,
0xbbfae272664f00d0ull,
0xbbfd765aa97ab1d7ull,
0xbbffe48e4fa498bdull,
0xbc02fa6c17741db0ull,
0xbc0562b54b9eeb8aull,
0xbc0967cd451f3f2aull,
0xbc0dc59ba66785a9ull,
0xbc1139806ca12152ull,
0xbc12eb4ce69711b8ull,
0xbc17dc05628cce00ull,
0xbc1811538d25ddd2ull,
0xbc1a3202d24b4c59ull,
0xbc242c4f7d552ad9ull,
0xbc24605fbf907ff4ull,
0xbc29a1bca9ba2cd5ull,
0xbc2ccee3e3d2d302ull,
0xbc2f9038423befd7ull,
0xbc36658f84463d76ull,
0xbc36944274d03264ull,
0xbc3e749a354baf19ull,
0xbc3f5c269b537f1full,
0xbc3fca1d0650c368ull,
0xbc4a813096a2641cull,
0xbc4dd9754322e689ull,
0xbc4f4fd8e48f192full,
0xbc54f2b4f2177a09ull,
0xbc61147d0a3a71f0ull,
0xbc61d54db178a7bcull,
0xbc6c164cb6b3a54full,
0xbc6d3a1a6e49f1d3ull,
0xbc6dc1c07ce5121dull,
0xbc6f340663b341e4ull,
0xbc737bbb17c3690full,
0xbc76a2a5b800457bull,
0xbc770350aa959b65ull,
0xbc773b90d0fc6c51ull,
0xbc7f09a1f0c24865ull,
0xbc812dbef67fd8d8ull,
0xbc8b2cb7616e0632ull,
0xbc8f6b4235bb5882ull,
0xbca1d8e7bb3fa7f6ull,
0xbca72d59e2ef5743ull,
0xbca7dcf064206db0ull,
0xbcaa22d1be275356ull,
0xbcaaab986c2ea9b4ull,
0xbcaf0e056f6d9d31ull,
0xbcb10a45c1686e23ull,
0xbcb3624238509e40ull,
0xbcb9ffe59db15acaull,
0xbcbd3599fd605d69ull,
0xbcbd89170be045fcull,
0xbcc0656482e70955ull,
0xbccecb8d52cd4f86ull,
0xbcd13b6f06806d7aull,
0xbcd1e7ac19385c3dull,
0xbcd367411279e3c0ull,
0xbcd7fa08fa3da7aeull,
0xbcda4dde2fad184cull,
0xbcdc412a44aba973ull,
0xbcdccc2de4b060d0ull,
0xbcdd387cda7d740cull,
0xbce117e049a60b20ull,
0xbce237f3b04a0375ull,
0xbce2c1f1c2216c04ull,
0xbce5b25fce82a06dull,
0xbceafe0d88289630ull,
0xbcef31065e246bc9ull,
0xbcf00bcfc3016bd6ull,
0xbcf261cfec1033e0ull,
0xbcfaa2bea86cb26dull,
0xbcfb2f44306a48c9ull,
0xbcfc3e86f85a2e4dull,
0xbcfed7fed3660610ull,
0xbd037f78a9ce2dc5ull,
0xbd09e5c667a57adeull,
0xbd19278a0f9c5194ull,
0xbd2e328e64fe1be3ull,
0xbd2f09f8a11706c9ull,
0xbd3421eac28898ecull,
0xbd3cbe519c9800b7ull,
0xbd3d5fc53adea42full,
0xbd40ba48865ac55full,
0xbd41db742e318dbcull,
0xbd41f13f549e0effull,
0xbd42174d43f3e11dull,
0xbd4bf8c3810b3dbbull,
0xbd50b7e2f11771acull,
0xbd5c95c88528779full,
0xbd5edc1b9109e86dull,
0xbd62bed38446b9c1ull,
0xbd6c253dc73273c1ull,
0xbd7287873b0e8f8cull,
0xbd736d886573ffb2ull,
0xbd7462106659d697ull,
0xbd7bdf62dff3be90ull,
0xbd85166b4d446d63ull,
0xbd931ba18d4cccf2ull,
0xbdab420c3953cb31ull,
0xbdad17ac47df732bull,
0xbdb980a96b2e9c04ull,
0xbdbb8a320a4cdbecull,
0xbdc37f689e39e8abull,
0xbdc4d28c275e3d66ull,
0xbdcdd7d91d52ff08ull,
0xbdd478c8abed37e2ull,
0xbde3f4c93bd465cbull,
0xbde59812dd0d6632ull,
0xbdfa6d3c7db97556ull,
0xbe00ce3ca0162f0bull,
0xbe04e847195be04aull,
0xbe0775e545ac2b13ull,
0xbe09d23c23721a4dull,
0xbe0b720bb9c9e017ull,
0xbe0ba7ce75dfdbd8ull,
0xbe0fa23aa63bf944ull,
0xbe1ecfbc1427d649ull,
0xbe21e64ae7d91bf1ull,
0xbe2d25f4ccc24c90ull,
0xbe3134ceee06359eull,
0xbe35fab6b5eb2646ull,
0xbe3ccfd0ead8fbfdull,
0xbe46261cefc5e96full,
0xbe46b2224733de43ull,
0xbe49228d52ec89c3ull,
0xbe4ebb43c5069751ull,
0xbe5392f9c682c909ull,
0xbe54fe98bd4b05f1ull,
0xbe57c2111a7e3809ull,
0xbe5cf72fc5184961ull,
0xbe5db14ae2592b1cull,
0xbe5f7db227539124ull,
0xbe5fae6ed0f6e975ull,
0xbe679f2d33a63b18ull,
0xbe68b9fa7e550233ull,
0xbe69708c46c552b1ull,
0xbe70b999407115abull,
0xbe86667bff9b484bull,
0xbe93c01245aeafa6ull,
0xbe959708a7562fe8ull,
0xbe97c1ec1c019865ull,
0xbe9e671e10d99885ull,
0xbea4205fe96186a7ull,
0xbea49a20345ff6bfull,
0xbea652451815e271ull,
0xbeaac81592137394ull,
0xbeab43ba4db5013bull,
0xbeb693fb1184343cull,
0xbeb7a8ec339836c7ull,
0xbeb7daeac171ba26ull,
0xbeba30e15440ff21ull,
0xbebafd5d5ff8feb8ull,
0xbec8f8ba22abe41bull,
0xbecfc22118db3876ull,
0xbed15136fac67017ull,
0xbed437ec4503b2e1ull,
0xbee74a749e36464bull,
0xbef0f83f80fd0333ull,
0xbef31751e7c5287eull,
0xbef690f2929297e2ull,
0xbef7aead6b2d5313ull,
0xbef8b8504d978a18ull,
0xbefebc0657939e39ull,
0xbf05e2bc61d402c1ull,
0xbf067985de65609dull,
0xbf0785b647fae8f8ull,
0xbf090e2d3c79c31full,
0xbf10a5267c4f8baeull,
0xbf11473b5a0b157full,
0xbf1a9032089bc86full,
0xbf1f0e414c622ffaull,
0xbf1f4d8071e9a057ull,
0xbf1f78aa578271aaull,
0xbf204f25f6bb144dull,
0xbf2052a22ab01650ull,
0xbf24f3c7736795e7ull,
0xbf2863dda7d60063ull,
0xbf39c4d7073124b2ull,
0xbf3a723aafd390ceull,
0xbf3b8b7ac2e3db4bull,
0xbf403542c1839addull,
0xbf44ca01fe7df63eull,
0xbf4620ff37c0d70aull,
0xbf4f7fdd50874b90ull,
0xbf567c1006f90bf9ull,
0xbf59c98b341de271ull,
0xbf64e7cecdde328aull,
0xbf6545ef5820b5e4ull,
0xbf7a8d38e42bf4f5ull,
0xbf8242208bfb45cdull,
0xbf87f99515a700c0ull,
0xbf88bc11195cbb59ull,
0xbf8aa3f0b5770892ull,
0xbf911134967fa9a7ull,
0xbf949a09ffbbd378ull,
0xbf9e989637d3d900ull,
0xbf9fec8e27b3e5acull,
0xbfa92d59aa2c892aull,
0xbfabfb11c4678f52ull,
0xbfb2e23e231d9a4dull,
0xbfb3e8cbb3a462a0ull,
0xbfb6cbc4dcdb37f5ull,
0xbfb70a5cd2cdba7dull,
0xbfb8eaa6619f63baull,
0xbfbe13e0463feb81ull,
0xbfc44e89fe8c7097ull,
0xbfce3dad33759095ull,
0xbfcec8eb7fd49ea7ull,
0xbfd3623628d87bd7ull,
0xbfdde1277a796e26ull,
0xbff33d1ba2e4ba57ull,
0xbffbec94450179daull,
0xbfff584dada6f9efull,
0xc009590e2cbb434eull,
0xc00d91207ee4a0c9ull,
0xc0105e798f800570ull,
0xc010b65334c5d56full,
0xc01572b599ab6b97ull,
0xc01837dfa7ebd17eull,
0xc032884b20494ad3ull,
0xc03d96a098559724ull,
0xc0417d7d488e44f3ull,
0xc046f8f8a4caf648ull,
0xc0485e1b795b5c81ull,
0xc0493ea3d75a7f5eull,
0xc04a778f06a3c393ull,
0xc04c5569169da84cull,
0xc04ee85f606be465ull,
0xc0502cc741ee0002ull,
0xc05b102b948e82cbull,
0xc05df0a8975cf007ull,
0xc05dfdd0bb59e3ceull,
0xc060709a06991369ull,
0xc0623b18ad63a990ull,
0xc069514959b860e0ull,
0xc06c6c1d18c8fc74ull,
0xc07066bdd23bb557ull,
0xc075e3366efc8d3cull,
0xc077e6dbe1e4e6c6ull,
0xc07811417e5b7b9dull,
0xc0786065d2a8b1f6ull,
0xc0818b719c41a580ull,
0xc08d538bd3e8eb84ull,
0xc095d7a269666dc3ull,
0xc098cf96eeaf229aull,
0xc09a8fbe9219afd3ull,
0xc09bd894757e9e26ull,
0xc0a2ab236a361be6ull,
0xc0a303c24cfd129eull,
0xc0a36a70befbd1cdull,
0xc0aa06d584ba0627ull,
0xc0ad6df510a37194ull,
0xc0b56f7518e6bb0cull,
0xc0c136d5076e58d6ull,
0xc0c484822eb28c94ull,
0xc0c59a0e98da1b58ull,
0xc0ccfee327f91633ull,
0xc0cd3c249c88ce94ull,
0xc0d33927ac7e6370ull,
0xc0d34d7b311db80dull,
0xc0d3941aa38a87f5ull,
0xc0d5850b5c5b33ceull,
0xc0d71aad01dcd052ull,
0xc0dde0e1112c326aull,
0xc0e6dab97195ff8full,
0xc0e9f80144fee246ull,
0xc0f203afc0039b1bull,
0xc0f28cc51725f175ull,
0xc0f29032e1df488bull,
0xc0f323e9cc61fe01ull,
0xc0fabcad5e26a4a0ull,
0xc0fc4c7c3617637eull,
0xc100bcc12d408341ull,
0xc104be0bd54e3f4cull,
0xc1063f250f1de30full,
0xc11050ef8c1184e7ull,
0xc116bcfc9dbf6866ull,
0xc1188339751e510bull,
0xc118957b8b06c757ull,
0xc11dcc01f36617d2ull,
0xc12034ad21e7f749ull,
0xc1255d2eb472fc2eull,
0xc1279423f9b6e98dull,
0xc131d4a68f8ce15eull,
0xc13392acf852e6ccull,
0xc13683cfdea112fbull,
0xc136902599e2dce1ull,
0xc14fbe4ff32067bfull,
0xc150d25a6626ff0aull,
0xc15449008686e287ull,
0xc15767ac4a81e6b4ull,
0xc158bd0ffc5ad8a0ull,
0xc15a48bd4baa10eaull,
0xc15f98b13652fd0cull,
0xc1613ca62230dcbfull,
0xc1631bfbaa2e5edaull,
0xc166426b0611e88dull,
0xc166a1154b7102f3ull,
0xc1704b17747c6f76ull,
0xc17316769469c789ull,
0xc181ab3ef2b4fcceull,
0xc182492a7d1a26b8ull,
0xc185585f47553f3eull,
0xc18c82d0d770f831ull,
0xc1932cc8ece6ab9full,
0xc19563ad3d6f71e9ull,
0xc195d4a356f7755dull,
0xc19bdd6f2a2cd362ull,
0xc1ad09968ce76c67ull,
0xc1b22cd0e37082f6ull,
0xc1b75e8361dcdcedull,
0xc1b951e2deeb9f5dull,
0xc1db51e005f4b1c7ull,
0xc1de91493f0736f8ull,
0xc1def0ec32407b5bull,
0xc1e23a875a840f5full,
0xc1e700c6487241b1ull,
0xc1e70416a134a628ull,
0xc1ed4e03fd8dab39ull,
0xc1efc4023b0c7762ull,
0xc1f3e76f15a3f476ull,
0xc1fb3d8fa7f92b0bull,
0xc1fc33e07fd30360ull,
0xc202d7cccfc36bebull,
0xc206c896b3f93267ull,
0xc21be502984a1da2ull,
0xc2274ade6567a453ull,
0xc227c506ebf27e7dull,
0xc232d64364af7efbull,
0xc23456efcfb7016cull,
0xc2352058d51823d7ull,
0xc23e155bafcb409bull,
0xc246f30b51ee68f4ull,
0xc24b9d19b902fe39ull,
0xc24ba9bb5a809701ull,
0xc25beb9d68e74b7full,
0xc264b56425e30b6bull,
0xc270dc1e71d15e44ull,
0xc275d86b0ae60a03ull,
0xc275e2557c6eb6baull,
0xc27c337254921f24ull,
0xc27c9031ed49abaeull,
0xc280ee01a6cf4860ull,
0xc28a719249f241eaull,
0xc28e07766a526c01ull,
0xc2930bf56074b960ull,
0xc299f5f02cdf2923ull,
0xc2a0b483e2919bc8ull,
0xc2a5ab573a613133ull,
0xc2a771b55a9131a1ull,
0xc2a916caffe3bdbeull,
0xc2aaa9423a39e8e5ull,
0xc2abd424e1ec6eb0ull,
0xc2b005c14cfd3756ull,
0xc2c0e95bef0a4d15ull,
0xc2c46045a265cf93ull,
0xc2c7ed34da0dc0b7ull,
0xc2cd09983218b359ull,
0xc2cd4c37c8bf4a24ull,
0xc2d5ba46578f0391ull,
0xc2da8ef4ecdfcdfeull,
0xc2e59fe2b20bcbdcull,
0xc2f0b3065e037e8aull,
0xc2f1ed0d26395813ull,
0xc2f5e9deb6f7b964ull,
0xc2f67f6df5cc004full,
0xc2f6cae74e4bbfd8ull,
0xc2fa64b9ec30a1b3ull,
0xc2fce2df90dbf62eull,
0xc2fd0af3be95cba3ull,
0xc2fd2520bcdc64e1ull,
0xc303ac031001f0dcull,
0xc3059a3860eae7edull,
0xc312b93f09526b5bull,
0xc31b5911946273fcull,
0xc31df1dfe105c517ull,
0xc32467d14f7076bbull,
0xc32a87ee27668dd4ull,
0xc32dac72c039e339ull,
0xc32e344e4213afa2ull,
0xc336de436a20a1b2ull,
0xc344298167c22a08ull,
0xc352094c713cd153ull,
0xc352a9645672ba98ull,
0xc36ada60db4111daull,
0xc36b09a1e42384a7ull,
0xc36d3f3f5848d0b7ull,
0xc373363737071b42ull,
0xc37d6c920be40237ull,
0xc38592b761e7a1f0ull,
0xc39279e291c1481dull,
0xc3979ddcbf81d767ull,
0xc39d7e7e11e24c0dull,
0xc39da39118498f07ull,
0xc3a8ba733b65504full,
0xc3ad697e503fe2f7ull,
0xc3b5554b56d49eabull,
0xc3b8a0f56bb98b7eull,
0xc3b8b1ba96eecba1ull,
0xc3b9d80f3cf46ca5ull,
0xc3bd52d3b7601f38ull,
0xc3c1076bf2780a46ull,
0xc3c59c00347d87e2ull,
0xc3cb9d784220d495ull,
0xc3cbe54d385e94a3ull,
0xc3df6ca80c922882ull,
0xc3e081536aa2d7a3ull,
0xc3e822a7c364399eull,
0xc3eaa84d0442349eull,
0xc3f83877c85dd390ull,
0xc3f91800422a2e3dull,
0xc3fc0c824309e498ull,
0xc3fd4a4688c2cc36ull,
0xc413c59474268201ull,
0xc414659152b2206eull,
0xc4150865752b4e83ull,
0xc41702192c45798aull,
0xc41c046c1cb84511ull,
0xc421bcdeaabe770full,
0xc421f7fae69c05d7ull,
0xc427e62ea99f696eull,
0xc42b61f9883d1a98ull,
0xc42fbf72f3fd0c31ull,
0xc434bc3f17ece392ull,
0xc44331c1248ca498ull,
0xc4447046be2d9cc8ull,
0xc446906c73fb8865ull,
0xc44f8bf8fd9ddc1aull,
0xc45c970fbfb55182ull,
0xc45ca512a117364bull,
0xc463aa7bc4e26926ull,
0xc468a5c4eac6d080ull,
0xc47d5c973498226bull,
0xc48b701266db8abcull,
0xc48f9a8a89a7d1c5ull,
0xc497760c78c352b1ull,
0xc49864189eaf65efull,
0xc49a547ad599bf11ull,
0xc4a95b956720a1afull,
0xc4a9e76c18c54004ull,
0xc4b0b17310f76da6ull,
0xc4b256f142c5b684ull,
0xc4b412a9a8af88e3ull,
0xc4b4956013be0faeull,
0xc4b7977ea33324cdull,
0xc4b90d292adfd2d7ull,
0xc4c290864f9e160eull,
0xc4cb7332b329b60aull,
0xc4d1fb09efe166bdull,
0xc4dda0b4b2848751ull,
0xc4df5a8c0e66cac8ull,
0xc4e1d4228732bcfdull,
0xc4e5c7a68c7c8e22ull,
0xc4e6b8d7d5cf6f77ull,
0xc4e6da1b4d016453ull,
0xc4e9571c0e2c2316ull,
0xc4ed69b1fd54f318ull,
0xc4f164481bfc28d0ull,
0xc5045b2bcc438191ull,
0xc506ded5f6b600c1ull,
0xc50fb05daabf8003ull,
0xc50ff642bda91e90ull,
0xc515b8896500d392ull,
0xc519a75823f5dcecull,
0xc51ad4b773ea0f10ull,
0xc51f3ab7399e7c4aull,
0xc51f4469a0670cd2ull,
0xc5279e780cd16269ull,
0xc52a923e1c0c835cull,
0xc52dbb7658d041ecull,
0xc535f78d755f783dull,
0xc5386874e380d95cull,
0xc53992fe5917ac29ull,
0xc540493b6c1dd463ull,
0xc544b91bb4978ea1ull,
0xc54a43c0c8a079efull,
0xc55215e97f004695ull,
0xc552c4065554bf01ull,
0xc55fde4a4c82fce9ull,
0xc5657b76e36902e1ull,
0xc571e9b6018432ceull,
0xc5727a3b3d41e46bull,
0xc57393c698e39dd6ull,
0xc576b1bfe3abb987ull,
0xc579634c2344628eull,
0xc57aec3f8e035819ull,
0xc57c0bb8712253ccull,
0xc5862e11125236e1ull,
0xc589f487f2bcdbe0ull,
0xc58ecc0bc7f993dfull,
0xc59309197cefa7fcull,
0xc5a55bc60b57d544ull,
0xc5a8e205a285f654ull,
0xc5ab2bdc19dba440ull,
0xc5aeddbd3a7d6c4dull,
0xc5aeea3a9cd53ce7ull,
0xc5af4286ab0c8781ull,
0xc5b7fb8e4d4a9914ull,
0xc5bdcd7b6e2e3fcdull,
0xc5c323abdcf0491eull,
0xc5c6aeb9c6b50422ull,
0xc5cbb0f78117ba64ull,
0xc5dab8614b158183ull,
0xc5dddf7005a1ff8aull,
0xc5dfd7f4b6d95f3full,
0xc5e2eabd19d5ac65ull,
0xc5e5bda4e5cefe95ull,
0xc5e5f598e5f19b7cull,
0xc5eb4f64742f7487ull,
0xc5ee5830238ed15full,
0xc5ee7c4361cb82bfull,
0xc5f379b5ad96925aull,
0xc5f7be024bb84907ull,
0xc5fea9f368931308ull,
0xc6024bd1a4218a26ull,
0xc602cce937a877f2ull,
0xc6053928fb174474ull,
0xc605bf6ca16a288aull,
0xc60a4b9bfa1856cdull,
0xc60e5101127c5d67ull,
0xc60ffbc3d170e2adull,
0xc6129f46bec340e0ull,
0xc614a5d9230605c9ull,
0xc622493d44b624ccull,
0xc624ee50389616aeull,
0xc6378826de5c1022ull,
0xc6390e6f7d98200cull,
0xc6471e02da334887ull,
0xc64a316be07069d6ull,
0xc64a653989d2d94aull,
0xc64b85420e5412f5ull,
0xc654ddd948bca008ull,
0xc6590ade017f495bull,
0xc664f7b9ec0010d0ull,
0xc665cd0e2a53b66aull,
0xc666c23f125d8c0dull,
0xc666cab509a84049ull,
0xc669b1af9179b7c2ull,
0xc66a6cc0c83f1dadull,
0xc672397a1c8b3fc2ull,
0xc673d78e5be4f6b9ull,
0xc678184912d971ecull,
0xc67c06e79f5d6ed3ull,
0xc67c6c227848efcfull,
0xc68291901d87dd89ull,
0xc68957f815d0bf6full,
0xc696c073b0cb9f47ull,
0xc6978961b84b6b88ull,
0xc6a46f53ff653caeull,
0xc6a4fc52b2d52ee0ull,
0xc6aa471510ea7d99ull,
0xc6aacc4c3f34d8faull,
0xc6acb94614511d75ull,
0xc6b7a8a23fdde590ull,
0xc6c04952aaefb66dull,
0xc6c2c8d5e963a31dull,
0xc6c7fa699459176dull,
0xc6d62b2540837dfeull,
0xc6d90a8928d0c62cull,
0xc6da0b457e6eae1dull,
0xc6dbd7832e6ff52aull,
0xc6dca05e602d955aull,
0xc6def77eaab35af7ull,
0xc6e08a1874596220ull,
0xc6e0994c9951c6fcull,
0xc6e3c62556b3bcb6ull,
0xc6e5a2c56bd24aa4ull,
0xc6e9dc90c8291fb5ull,
0xc6ec17cbd7800268ull,
0xc6f9115c1a4cc144ull,
0xc6f9193b2d4b5055ull,
0xc6f9a61590d8c437ull,
0xc6fd2e1e3b25335full,
0xc700106c58c40328ull,
0xc711910056cbc8d5ull,
0xc71518a4449f494cull,
0xc7175e3023d690e8ull,
0xc71d63c7b11ec738ull,
0xc71f176058339e92ull,
0xc723b84b65b58783ull,
0xc72730d45cebdb07ull,
0xc72b11d740053adbull,
0xc72c5df5d16d67b0ull,
0xc734617ee99b5668ull,
0xc7402dab7ee4d51aull,
0xc74a6586def06f9bull,
0xc75b494addd06f23ull,
0xc75d697d3977af12ull,
0xc764e7223740162cull,
0xc76df8fedf169edaull,
0xc7738f3bafd52889ull,
0xc77c62dbb003df33ull,
0xc77d97b6ac1507e0ull,
0xc7805987b36669cbull,
0xc781949b8ccbe538ull,
0xc78a1cd2321cbbfcull,
0xc78a354e6ee20b74ull,
0xc78f5b4e53914d80ull,
0xc7959095d850b3d4ull,
0xc79da3793217fb52ull,
0xc79e8e847b3fb526ull,
0xc7a3d8328757dbb3ull,
0xc7a6d408e8fd1567ull,
0xc7abbc8a5ca1bfd4ull,
0xc7b1e0403e730285ull,
0xc7b2c33cc24c015bull,
0xc7b5f8cd06a7eb74ull,
0xc7b7b228f66fc1f2ull,
0xc7ba48cf39e3baf0ull,
0xc7bb19f1f4931de1ull,
0xc7bb6149adc7df7eull,
0xc7bde017107395c9ull,
0xc7be1e4b80b88b0dull,
0xc7c28195111f63bdull,
0xc7c6de66f3faed9cull,
0xc7c92fbc21318188ull,
0xc7cb4730094dd1d0ull,
0xc7cdf0bf12b0137dull,
0xc7d1c9aec76a5306ull,
0xc7dbd6c2a12f9077ull,
0xc7e196fb056aa24eull,
0xc7e30701925f4f4full,
0xc7e539730ee8296bull,
0xc7faa37f916e4a69ull,
0xc7fc3a4d36d3cc1bull,
0xc801d411ab7f7192ull,
0xc80a30177f4a3dcfull,
0xc80df8967c2807edull,
0xc811029e1eca7a84ull,
0xc812a9685eeb87c9ull,
0xc8148fb097bc8e32ull,
0xc82032389b950f1cull,
0xc82c213c1f866e04ull,
0xc82d0c6cdeefa311ull,
0xc832e37a6e12025full,
0xc8333c0d9a3c100bull,
0xc83ce15b69fa6ba8ull,
0xc83ecc51c29113cfull,
0xc84211e3c2f70272ull,
0xc849aff399e1a939ull,
0xc852902f7c013b26ull,
0xc864368c50ec546aull,
0xc865d5c2f40f72a5ull,
0xc86aafffafcceee9ull,
0xc86d6d3b5a69215cull,
0xc86e9e7be4afac4eull,
0xc86ec2294a7ed44eull,
0xc87cacb9c3a4ab63ull,
0xc881f9e43d72a411ull,
0xc890fe42f32f6f58ull,
0xc89cb9d848633b78ull,
0xc89ceb627c5fa62full,
0xc89f1b2461fe1ffcull,
0xc8a8d885c3ae9524ull,
0xc8b2c789666c194bull,
0xc8b93d34e954318dull,
0xc8c08cc5c8081001ull,
0xc8c15c05f54e4374ull,
0xc8c27a0e5603fe49ull,
0xc8c81e243ba7e73eull,
0xc8d5ed8a134aa059ull,
0xc8dbebbad0778c0dull,
0xc8e11f45102b4ed1ull,
0xc8e1bae1a11649e4ull,
0xc8e807e29d854538ull,
0xc8e9e58406e1523cull,
0xc8eb7bf3946ab346ull,
0xc8eb865ffc64d885ull,
0xc8ecdfa9a2bfcff2ull,
0xc8f3aa5ef2026951ull,
0xc8f5ca5cf33ffb2bull,
0xc8f5d6d0b8fc0e76ull,
0xc8f61b94042ebce1ull,
0xc8f7b25520d028ffull,
0xc8fadb45a641d910ull,
0xc900231cf18e7861ull,
0xc9063eb60b4067e6ull,
0xc90690a3430cee4dull,
0xc90712465f2ccd24ull,
0xc90bcf494f6631a4ull,
0xc91405f2a963f6acull,
0xc918078b57f2b313ull,
0xc92d89670816848aull,
0xc9348df5917a79d4ull,
0xc937d14888756f9cull,
0xc939cee63dae2088ull,
0xc942a29968521cdcull,
0xc945f03509c944e9ull,
0xc946bd6c2ce33c6aull,
0xc9482964e9e0ae6bull,
0xc9491bcbb2d3f03dull,
0xc94db0eeb141c90full,
0xc94fa0f6fcc284efull,
0xc953370e0f587b20ull,
0xc956f2eb7c66dc04ull,
0xc957c97825d2f82aull,
0xc96917742fa8e039ull,
0xc97ce6d6d885a464ull,
0xc97f938ee8da60e7ull,
0xc980fbad649ed97full,
0xc98109868ef86696ull,
0xc984152cbb87c2d6ull,
0xc988810fe0b5d641ull,
0xc98baa3711a483f1ull,
0xc99649dc92d5b70cull,
0xc99d3da9f64b6a88ull,
0xc99e0521fc5e3f9aull,
0xc99efb646ab67980ull,
0xc99f40051f31fd74ull,
0xc9a4cede1efdba3cull,
0xc9adccbcad61e182ull,
0xc9b2418e0eb88c01ull,
0xc9b395293d377eb8ull,
0xc9b62271cd15f762ull,
0xc9ba0abb44580184ull,
0xc9c4cdadae769358ull,
0xc9c9277232474dc1ull,
0xc9c9c98f56a9b0fdull,
0xc9d6b05334aca05cull,
0xc9d9394b6c3c4fd3ull,
0xc9db2da67e0dd1c1ull,
0xc9e83db2096c3f4bull,
0xc9efd613cce73cacull,
0xc9f99dc834e2afaaull,
0xc9f9f9b705428d90ull,
0xca010bba211a9102ull,
0xca0607fd69f2c2a4ull,
0xca09524abe2294d0ull,
0xca0a3fd0ce28bd95ull,
0xca0d16400a67de30ull,
0xca0d94995d60ab8full,
0xca0f8db836ea6e8eull,
0xca14b8c27124f0b8ull,
0xca15d7fc97d05df8ull,
0xca174ad78389e8a1ull,
0xca1f627d2441e5ceull,
0xca1fc434bd8bb285ull,
0xca23bb45e0dcec20ull,
0xca2bffeac9eba1deull,
0xca2c5514d7ec65cdull,
0xca313f4a0b6e78bcull,
0xca48b12064d0210dull,
0xca52d7b36dc4e0b7ull,
0xca5892ab692a9860ull,
0xca607d1d4826aa76ull,
0xca620c55cfc0fe0cull,
0xca630e080b9575ddull,
0xca64320786c69d97ull,
0xca68179ba89b47bfull,
0xca6ebf7adbd6d163ull,
0xca6f851a278e8c6full,
0xca740dfd9bc3bf36ull,
0xca762026b1ea6b6full,
0xca78adf982596649ull,
0xca81118a4e383220ull,
0xca980b0be01fa752ull,
0xca9a44d911fe1e7cull,
0xca9ab84fb9cf697eull,
0xca9b31b43df96b69ull,
0xcaa185ab4801241dull,
0xcaa5e6d4ea14eaaaull,
0xcaa646710399433full,
0xcaa7083fa7420881ull,
0xcaa8aa5f7159e335ull,
0xcaabe6b3b360dc59ull,
0xcaad59b653fbd8b4ull,
0xcaad5a0f62ae49faull,
0xcab6b3c21b2e16f6ull,
0xcab981842dc2698dull,
0xcaba54569e3d950cull,
0xcabff6744958bd83ull,
0xcac3228c3a0d714aull,
0xcaca57346c1ef35dull,
0xcad981274fd53e68ull,
0xcae4b11edbd73d5cull,
0xcaf6031d6f4f3d06ull,
0xcaf697f1779b51f9ull,
0xcaf91cb3a46ca8b0ull,
0xcafc55d8f26ec0a1ull,
0xcafe458631a074dfull,
0xcb0159df809bd310ull,
0xcb0210b45f226ecbull,
0xcb038b99e9c93780ull,
0xcb06b98896bbac6full,
0xcb1d7d8eead1ea58ull,
0xcb29cd025221f0faull,
0xcb2ad79155442979ull,
0xcb2f0e24feecae38ull,
0xcb330fcca20979c9ull,
0xcb39f44530155e94ull,
0xcb3e91948763b6afull,
0xcb47a28199c13d6dull,
0xcb49e33012f3fafdull,
0xcb4be12989dc879bull,
0xcb4e2ea69243dae6ull,
0xcb4f53bb2376d49eull,
0xcb518e039a511288ull,
0xcb5d37d6e40e8782ull,
0xcb666fb980a87411ull,
0xcb69cf12f6cf4cdaull,
0xcb6acd2e432f65b0ull,
0xcb6b0eb65115c501ull,
0xcb6ebbff90f7ca76ull,
0xcb72568e64c7b596ull,
0xcb756aa2a0289f5aull,
0xcb761fba1c64ebcfull,
0xcb7bfd2fc8d29488ull,
0xcb8332cae7397b39ull,
0xcb84424c3e2351dcull,
0xcb89b00bb662bd5bull,
0xcb8f16b196601b33ull,
0xcb9297b84193d532ull,
0xcb95f19989fb7790ull,
0xcba168d03ea0bd3bull,
0xcba36f56d051b756ull,
0xcba6681a0cee27f2ull,
0xcba8b63ea5a80a91ull,
0xcbb384beebbad3cbull,
0xcbb3964b4f97c9ceull,
0xcbbbee71f7105cc2ull,
0xcbbebc9e2398f1f8ull,
0xcbcf62057392545aull,
0xcbd292ff0fd56da6ull,
0xcbd56ccaa6c2b53dull,
0xcbd5a5afb9c96358ull,
0xcbe8878007bd1395ull,
0xcbe8a393935772aeull,
0xcbfd051e5da7203eull,
0xcc01eeb7e2f5715dull,
0xcc07e000024472f6ull,
0xcc094f27ce991010ull,
0xcc164567cd1292b6ull,
0xcc171b7548ebadf7ull,
0xcc2154cc55f0cfc9ull,
0xcc22a6ec475d8711ull,
0xcc27f94a81215f7aull,
0xcc35637ef7f3382cull,
0xcc37ad86135c31d6ull,
0xcc3b3a7c15a290cfull,
0xcc44e55f1c497c0full,
0xcc4e7d8d1e1b0cfdull,
0xcc55cc1b88cec0bdull,
0xcc57f953f6db42c8ull,
0xcc5c3d92e68ba36aull,
0xcc5f75aa46607a7dull,
0xcc698ec818dcfd64ull,
0xcc6bb9c422a2583eull,
0xcc6fd953667eb592ull,
0xcc70192562b9d169ull,
0xcc753bcdf17eeeadull,
0xcc8307f70cfa7ca8ull,
0xcc85078699fbd872ull,
0xcc88301790327381ull,
0xcc8acc584b6a602cull,
0xcc8ae6c31798e6c0ull,
0xcc8e32cbad5f33e8ull,
0xcc97b6e0fefb055aull,
0xcc993f336b4c9e92ull,
0xcc9ef63a3d031ebbull,
0xcca93247a71f2c7eull,
0xccaa6306e0dc2382ull,
0xccae5cebf55319deull,
0xccb3418463713b44ull,
0xccbb1a16f36f103bull,
0xccbf51adc8e94850ull,
0xccc10433f57301c6ull,
0xccc10be4b1718559ull,
0xccc250a87de11739ull,
0xccc45e822e27e773ull,
0xccc5fcfc919982bdull,
0xccce12a841ecacb1ull,
0xccde2cbc107b11b1ull,
0xccdfb05af5dea573ull,
0xcce5461af3699b8dull,
0xcce9bdc4d119a9c2ull,
0xcceb8bd5392e3b35ull,
0xcced451b3728c71aull,
0xccf729dc67f809deull,
0xccfbf3bc84cb10f9ull,
0xcd176d734bbc56a0ull,
0xcd185a94593bf4c4ull,
0xcd1b3c304c4d1de7ull,
0xcd2316d9ca8a5baaull,
0xcd2d52058ad289b8ull,
0xcd3658a3e300c25dull,
0xcd394df33a3188c3ull,
0xcd39d85cb67a6743ull,
0xcd3cd63c94d8f311ull,
0xcd3ed6a3f70b23fcull,
0xcd3f470b02b17363ull,
0xcd3f7c9ee351bf75ull,
0xcd402c1b43e50e76ull,
0xcd42cd2cd3aee638ull,
0xcd498145d0236827ull,
0xcd4fe3ccb2840e42ull,
0xcd576575a9907015ull,
0xcd58618ef92634dcull,
0xcd593642f5a3e1e8ull,
0xcd5eef419573601cull,
0xcd6530b9b796a17bull,
0xcd65413dc4a7d17cull,
0xcd69ca6f347e934cull,
0xcd6aac9926305d30ull,
0xcd71eea1324ce18aull,
0xcd73a9190efc9c8aull,
0xcd83009402dfbd9eull,
0xcd8691f774747194ull,
0xcd8a896fda55d8e4ull,
0xcd9424c62ad8c3d4ull,
0xcd962288a9babd5aull,
0xcd9f1c36594c3f9full,
0xcda0d36ff71d7c19ull,
0xcda29724b5812381ull,
0xcda545f4046c3a1eull,
0xcdab80f91f12d3c1ull,
0xcdaba9d06498e33cull,
0xcdacc1ef10ee02acull,
0xcdae4233e7752ae8ull,
0xcdb55af74ec92b07ull,
0xcdb7d70dcf45c802ull,
0xcdba12ccc649f164ull,
0xcdba5f18685a48d2ull,
0xcdbd67875c501809ull,
0xcdc742fcb8425bb7ull,
0xcdc9d5f4063d176cull,
0xcdd001f730cfca95ull,
0xcdd2e377cdb60433ull,
0xcdd6dc6ca8ba7576ull,
0xcddae177c6510f6dull,
0xcddcbafa92754489ull,
0xcde2a964955c5cd3ull,
0xcdec3e859dc935efull,
0xcdedc28fcaf422fbull,
0xcdf6f007a4684e80ull,
0xcdf7d8ac6cda93eeull,
0xcdf95a207947a78full,
0xcdfec4bf9f491499ull,
0xce0019ff26053bf8ull,
0xce04af02cd9a5236ull,
0xce05edd9e6cdee52ull,
0xce1402b92433038cull,
0xce16c1a35adc2f6aull,
0xce20c284ddb07c3aull,
0xce25e1fba1fb96edull,
0xce2830462c468be9ull,
0xce28b5f249a4b080ull,
0xce2bebb2fc9d2e3cull,
0xce333264084a57caull,
0xce3423a72060d2f4ull,
0xce390095f0067b25ull,
0xce40d804dd81738bull,
0xce4bce68818c6ca4ull,
0xce55c016371a1302ull,
0xce586d6eebcb0f61ull,
0xce5a7995dd50afdeull,
0xce5d4719f09edb83ull,
0xce66bb7f4a7f1731ull,
0xce6d4bca6bfb6a77ull,
0xce7204b9429dbaf8ull,
0xce72b9bf212c88c5ull,
0xce732a43169fc3dbull,
0xce8151ae27b22463ull,
0xce829bee3973445bull,
0xce8b9c26cac48e97ull,
0xce8e57fef01e3974ull,
0xce96935a4dcc08d4ull,
0xce9b2ea2c5a75ae5ull,
0xce9f0711ce3ced21ull,
0xcea77141fad8eb55ull,
0xceb25300eeb9edcdull,
0xceb44205fcabb4dbull,
0xceb4bc20f21e0688ull,
0xcec0b0acf34ebf47ull,
0xcec46221764ea415ull,
0xcec689926fdf550cull,
0xcecd3610518d7944ull,
0xced336e6d24d4eb7ull,
0xced510c315537e13ull,
0xcee0073b881dea4bull,
0xcee364abc77ebcabull,
0xcee4e985d6489e27ull,
0xceef27799bff5918ull,
0xcef44b2f766cb788ull,
0xcefc7bfafc044ccbull,
0xcf00039477633bfcull,
0xcf075275f0f7f091ull,
0xcf0a61bbd746dc3eull,
0xcf0debd75925f1c0ull,
0xcf1841f14b15389bull,
0xcf2221e66d5fb627ull,
0xcf2822a97a6f0d18ull,
0xcf2f7f82163efe7eull,
0xcf2ff659e013b073ull,
0xcf36951949ff15f1ull,
0xcf3aef7b483ac863ull,
0xcf40010d8b34b55bull,
0xcf424f54d5103c76ull,
0xcf4370f711d70d01ull,
0xcf449b44d94ac9caull,
0xcf4799d567368784ull,
0xcf49ce0095a7e6daull,
0xcf4cb624bf8a6358ull,
0xcf583aabd32c432dull,
0xcf62bfd96b2023b0ull,
0xcf63201a4c5fae5cull,
0xcf71113f8ee41ca0ull,
0xcf7145752f3f0afdull,
0xcf777fc5097ca74dull,
0xcf7dba34c5906960ull,
0xcf850d926a47c8bdull,
0xcf85a44ba3c97aa8ull,
0xcf94aaf971871d0eull,
0xcf955fa1287defeeull,
0xcf985387501a23ceull,
0xcf9b19d91916bfd7ull,
0xcf9cf41da87fbe76ull,
0xcf9fbd5f7bd9f33dull,
0xcfa3e0f2e260f310ull,
0xcfa81c8b38c29648ull,
0xcfac2513b76ea3b5ull,
0xcfbc8d6855a2feccull,
0xcfc4b917141b16dbull,
0xcfd41c14e5168dffull,
0xcfede6affde2fa21ull,
0xcff1223390713a3dull,
0xcff57076ef78c35aull,
0xcff67a076a0c878bull,
0xcff6d509d4cd41b5ull,
0xcff6d967e3655672ull,
0xcff7ed05e3daa432ull,
0xcff95a85af21195cull,
0xcfffd88a18ef5a8bull,
0xcfffdb525058d5aaull,
0xd0058ce9e0545b8aull,
0xd006f1edda0eb743ull,
0xd007c279bf44e437ull,
0xd009d37e8057552bull,
0xd00dbfc3e67417f7ull,
0xd011db2b1351f3c6ull,
0xd0170e3b511f3669ull,
0xd0179de8f875ee80ull,
0xd01a357572e7b5a0ull,
0xd01a9ec14e86e33cull,
0xd02cc6e49789dedfull,
0xd030dafdf8abdc07ull,
0xd032a2cc299fd176ull,
0xd03d64ffa03bcc12ull,
0xd03e30176f04852full,
0xd04b96a7ee2d6d3dull,
0xd04f5ec701e07cfeull,
0xd04f902dca29c185ull,
0xd0534b36cbfc03c1ull,
0xd0590331784a59acull,
0xd05aad9c5d1b4c3eull,
0xd05e5309ecea4bd7ull,
0xd060e5d15dd885eeull,
0xd0624bdf5f8f6f56ull,
0xd06aa94f92343292ull,
0xd06d7547131a4a6dull,
0xd073b25c43ff0b56ull,
0xd0779cccbd82f60eull,
0xd07a02aea16a14b8ull,
0xd07cf99e76eec0a8ull,
0xd0863a9821d8fcabull,
0xd0863fd435c3edc4ull,
0xd08b5d563311ecfeull,
0xd08cc105ce2f829aull,
0xd08dd7a585a0c3c3ull,
0xd08e15c6f9e14de4ull,
0xd0923ff98067b9c6ull,
0xd0961c9be5bc52e7ull,
0xd09fbd0211f88ffaull,
0xd0a142421000d51bull,
0xd0a28b8418849ecbull,
0xd0a2fa2ca43d3a8aull,
0xd0a4237000eaf58eull,
0xd0a4747255ba9c51ull,
0xd0a4bd4701f47fbfull,
0xd0a549615a300c81ull,
0xd0addaa52ddfada1ull,
0xd0b473b7b462e363ull,
0xd0b52bd8236c2dd3ull,
0xd0bb78c933cac441ull,
0xd0bdcbf18f69a91cull,
0xd0bdef2b3eed61a3ull,
0xd0be767ddb7a2919ull,
0xd0c48f1bc0275adcull,
0xd0cb4903ceda1115ull,
0xd0d716385649f54dull,
0xd0dadce9d124af76ull,
0xd0e040472c6aadbeull,
0xd0e0850d3bdc0871ull,
0xd0e08e12e4d514f0ull,
0xd0e09b989da08ad4ull,
0xd0e0b98e446c5046ull,
0xd0ec48748738f780ull,
0xd0eda4c487dde4c2ull,
0xd0eed3b8853e2809ull,
0xd0f6357e175ee09full,
0xd0f8c07ecabc7df7ull,
0xd0fa706a690b7bf0ull,
0xd0fe111314353c33ull,
0xd10a10a3983c23fbull,
0xd10e20eaaf25733cull,
0xd10fb5409ca74013ull,
0xd110419e2004229cull,
0xd115acd6c5f440e6ull,
0xd117dd0c052b91b6ull,
0xd11973a2361ece09ull,
0xd11daba885deb747ull,
0xd12040d6a63b2b72ull,
0xd1222ea0ba5f4c9bull,
0xd124ed140c74c893ull,
0xd13e94969083aa5cull,
0xd143a61bc852eee7ull,
0xd146f7722a806c45ull,
0xd14910ea4a2a2ca5ull,
0xd151b1db3b43bffcull,
0xd15ab756c8a55de8ull,
0xd1653791a9ec1c6eull,
0xd16e08442b26b6baull,
0xd16e8759a41708ceull,
0xd16f42a4a3230d37ull,
0xd1740568a9c73fe3ull,
0xd177d01c0403cbe9ull,
0xd17e45409d9a21ddull,
0xd1827fecb616e577ull,
0xd18368d14f523360ull,
0xd18649f36de69d98ull,
0xd188dbaa37495633ull,
0xd1907b85cc952b52ull,
0xd19343a9b50f78feull,
0xd193b1c502ac7d74ull,
0xd193bb866146d4d6ull,
0xd195d0fb6b56fb52ull,
0xd1987c2f94d9fb54ull,
0xd19cebfebf9e4d3full,
0xd19cfe413452292aull,
0xd19df49c396cb06bull,
0xd1a003a23ee56000ull,
0xd1a28d8c1c6d7dc8ull,
0xd1a37a8acdea918cull,
0xd1aa498f4a6abf84ull,
0xd1b84767f78e7745ull,
0xd1c41e126744f789ull,
0xd1cbf7edb5be4943ull,
0xd1d2732c5b88a6d6ull,
0xd1d3041af431c06dull,
0xd1dd4be6677ef762ull,
0xd1e2ffb02c4609ddull,
0xd1ebb23ef49867e0ull,
0xd1ed4a734568bfe0ull,
0xd1f1865f567bc368ull,
0xd208cbb372a67cc3ull,
0xd20bb73a2eafaae7ull,
0xd2125c866faab395ull,
0xd212b57e4c60f0f1ull,
0xd21416d8efc35f57ull,
0xd214c98fa3a7a8d8ull,
0xd2187fce41a9fdedull,
0xd219b7de38bc5f83ull,
0xd21aee1debca764bull,
0xd21c7b22502d909bull,
0xd21f714ca539d36bull,
0xd233b02bce2da2baull,
0xd238d743f51091d0ull,
0xd23d9c84c7bc2ffbull,
0xd2445dc49653198cull,
0xd2454f065f433e41ull,
0xd24cdedeb6796d21ull,
0xd24f76c7162977d1ull,
0xd251843e3aca2cc8ull,
0xd25ee6c7f6cd003bull,
0xd266944aa5c6a8c2ull,
0xd26ef175b0fc456eull,
0xd26fcb3dc3315f3cull,
0xd2747641053dcecfull,
0xd2766ff8683bd5c8ull,
0xd27bc1e2213e78d3ull,
0xd2841e8ba01f547bull,
0xd2888a4e8fde9b38ull,
0xd288b0b80d96897dull,
0xd28c21c085f6512dull,
0xd28e4d3bd6caefafull,
0xd297d908356e8dbeull,
0xd29b01999bc0104eull,
0xd2a0e2f5377686d3ull,
0xd2a2101eb1b6aa59ull,
0xd2a5d040ac148908ull,
0xd2a8347bdf1cabfdull,
0xd2af363626d72594ull,
0xd2bf630c7813c82bull,
0xd2c24803988a9baeull,
0xd2c66e6f0cff177cull,
0xd2c675b203bf9945ull,
0xd2c6d9be454c122eull,
0xd2c85613a2b8c61full,
0xd2cc5a9ce49a9603ull,
0xd2cd66abafe7c52dull,
0xd2cfff5c3c64ade7ull,
0xd2d33da9f741a4a1ull,
0xd2d656ae86652fc0ull,
0xd2df10a05c1cd7adull,
0xd2ebd49e9a21e430ull,
0xd2f4e8963010cf4cull,
0xd2f6f35f9facff44ull,
0xd30834365bba92a9ull,
0xd31d9fb5e06dc085ull,
0xd320248fef7c2523ull,
0xd326bec986e73b7dull,
0xd3285ccdd3e18b1dull,
0xd33a47936cab3da0ull,
0xd33a92831662facdull,
0xd34752b2666c2ea0ull,
0xd34a19ed789a7676ull,
0xd34ad788f3ff353eull,
0xd34e7a57abc9d008ull,
0xd355c5b17d3a0c8aull,
0xd35ee04f32d9e67dull,
0xd360dd2011cc05caull,
0xd36fda626aed7ae6ull,
0xd371a876354d873aull,
0xd39008540f60e69cull,
0xd39847b4447fc362ull,
0xd399ba2e1923f1afull,
0xd39aa0870ed4e121ull,
0xd39ebbbce4de03e1ull,
0xd3a362e4485ba9cfull,
0xd3a3d084351e52cbull,
0xd3af898a83278338ull,
0xd3b6e279f6aca160ull,
0xd3b73e68b8297572ull,
0xd3b8adb2a2e8bc80ull,
0xd3bb850b466e810dull,
0xd3bd080cd32f06d0ull,
0xd3be36e6ce64dde9ull,
0xd3c184f7b30a0807ull,
0xd3c1f81ee693a5ebull,
0xd3c2b748a530034eull,
0xd3c41af541843652ull,
0xd3c79827c35eadc6ull,
0xd3c98ba31bfb7a56ull,
0xd3ca03b28a056688ull,
0xd3ccd2e41b6643daull,
0xd3cf482515a322d6ull,
0xd3d13dacc35ff3a0ull,
0xd3d140bd38b5bde8ull,
0xd3d26911c9723ae9ull,
0xd3d28c39cd4f1db9ull,
0xd3d465726e39794cull,
0xd3d4a533fdf181d0ull,
0xd3d588f2f0d64781ull,
0xd3d8f7d58858e644ull,
0xd3da4019acdb301full,
0xd3daf90ca8e0fc56ull,
0xd3db34a1d41c4431ull,
0xd3ee5d06ae1adac6ull,
0xd3fd6230b8f3ab27ull,
0xd3fe6a1292b903fcull,
0xd40036c8dc61c89cull,
0xd402cb4fdde7a860ull,
0xd40625c2309fd416ull,
0xd4075f42b20b149dull,
0xd40ad934803c2aefull,
0xd40d812133495970ull,
0xd4110f10eba76188ull,
0xd41c00567cea3485ull,
0xd422ada679ec439cull,
0xd423fd3a0ac79a3cull,
0xd429a9135ef40a71ull,
0xd42be7ff01a00d82ull,
0xd4404dd70c3f268bull,
0xd4414676f313b5cdull,
0xd441cb75970b2e84ull,
0xd454950777a97424ull,
0xd45a7037866b8a51ull,
0xd4621e4aafc75cd5ull,
0xd46474587d3a5bcfull,
0xd464a2b76710d034ull,
0xd46af5f1e419233cull,
0xd46b5985fda7eefdull,
0xd47784c1cdfd13d7ull,
0xd47792c046716501ull,
0xd47b41bd088fabbbull,
0xd482269585b0c198ull,
0xd486358cd3991894ull,
0xd48b4c7204ce3131ull,
0xd48de89034a241bfull,
0xd493410ba4f512a7ull,
0xd49778d954740216ull,
0xd49d77e06ef04f29ull,
0xd4a78a771d1166d5ull,
0xd4a99cde6ff329cfull,
0xd4ac8b0e1171cc98ull,
0xd4acb0502694aeffull,
0xd4afe25871a7483full,
0xd4b1bff1fc152b12ull,
0xd4b2c2f3ca8e087aull,
0xd4b6ba2ed78acbe6ull,
0xd4bcd578a236d2a1ull,
0xd4bd3c271e887befull,
0xd4bf2c322fa15307ull,
0xd4bfab93c3c11570ull,
0xd4bfbaeb5e2f1ea6ull,
0xd4c121bbdd648bbfull,
0xd4c4957aa4ec4959ull,
0xd4c5780a9c282c58ull,
0xd4c5992d1f304be6ull,
0xd4d0343bcdfbe3a8ull,
0xd4d5c6468298fe07ull,
0xd4dd37b83c2b1b22ull,
0xd4e33481c7a89b4eull,
0xd4e7e545c35fcd36ull,
0xd4e8d04ed3d5b17eull,
0xd4ebc31e9ea0c98full,
0xd4ed5e2f4de88692ull,
0xd4eee32ced5058b8ull,
0xd4f0bf5e11b2613cull,
0xd4f6fd3ebfe091dcull,
0xd509b0f3bfab21feull,
0xd50b306fdce609aaull,
0xd5123c0c6c0e91a0ull,
0xd5128f60736ebcf4ull,
0xd5177f551d678245ull,
0xd531c0c082695b28ull,
0xd532596398152db8ull,
0xd53376eba35e2092ull,
0xd53856330aae74efull,
0xd5489e1fe8eb7d3dull,
0xd55303c4780a6a76ull,
0xd5542c976d77e97bull,
0xd55525bea39a606bull,
0xd5560c925f41489eull,
0xd55b067160067fd1ull,
0xd55b618eb886f0bbull,
0xd566480186d657bfull,
0xd56af0314868a916ull,
0xd56ce0054b8b84b4ull,
0xd574e4c88cb1affaull,
0xd5828eeb1b493695ull,
0xd58b86c60935882full,
0xd58ec947983189c2ull,
0xd5943b62bcdfdab1ull,
0xd595d0766d7a1f40ull,
0xd595d75ce932e383ull,
0xd59874e4a6636a16ull,
0xd59f7c8c3a5e4742ull,
0xd5a367fbe52adfbaull,
0xd5aeeedb826598c2ull,
0xd5b08abb40f2d963ull,
0xd5b6388c810579c3ull,
0xd5b82cd5a8f1cb88ull,
0xd5b91253b64f3437ull,
0xd5c7bfe3f1729f11ull,
0xd5ca148f21bcfd60ull,
0xd5ccba72e8c62592ull,
0xd5d59a843cd5699bull,
0xd5dae30b02a391c8ull,
0xd5db9117494f8436ull,
0xd5dd6a248457f8e7ull,
0xd5dddc78dde29afdull,
0xd5dec979e4a66fbcull,
0xd5df4ab3ce51179cull,
0xd5e62f011c31425cull,
0xd5f0bb520e408831ull,
0xd5f3f28b38751b42ull,
0xd5f62e3c327e88b3ull,
0xd5f6a6d694a10b53ull,
0xd5fa102ebe1c1571ull,
0xd5fa66effe6b0336ull,
0xd5fbb3a6b530943cull,
0xd608421d1fd4df3eull,
0xd60af78870ab2855ull,
0xd60b1aae45980d69ull,
0xd61b10141e7c3895ull,
0xd6220ee97e11f4acull,
0xd624cd56c7c80d6cull,
0xd62be2cea8f47939ull,
0xd62cb9564ef1148cull,
0xd62f8c449e32a4a9ull,
0xd633391b5d8188a3ull,
0xd642c9bb78ae87c5ull,
0xd64933be21da7c88ull,
0xd65e1d82901b50e0ull,
0xd65fca507816a767ull,
0xd662052e6328fad1ull,
0xd66d8269c9277ebcull,
0xd66d9cfcad2ba9bbull,
0xd6705aba43b1ff90ull,
0xd671413daf3a223dull,
0xd67a14f51a82b1f6ull,
0xd67eef2d9ac4d558ull,
0xd67f5dedb44ab826ull,
0xd685dc71eeeb83c4ull,
0xd6893fc35210844cull,
0xd689c6e64d11674eull,
0xd699db81794fc9c7ull,
0xd69b41775060f354ull,
0xd6a1e257045a1fe7ull,
0xd6b183de7cad57beull,
0xd6b3a76d97645bcaull,
0xd6b3f2ea8b73399full,
0xd6b5cf8078377aa2ull,
0xd6b743db95a28b36ull,
0xd6b9eb6cbbee3150ull,
0xd6c24dd5b7dbc10cull,
0xd6c6a87378f2241full,
0xd6c7aeeba2791841ull,
0xd6d8a5ea2ad55b8full,
0xd6d90d7044402029ull,
0xd6db7db35d486c6bull,
0xd6dd6fb02f494644ull,
0xd6dda2088e95b25cull,
0xd6e8c70cb409d258ull,
0xd6f09c96816eda31ull,
0xd6f4096eb54db545ull,
0xd6fc4158bf091c51ull,
0xd70370beeb693061ull,
0xd7044aec3ced80daull,
0xd708ab2dc347824full,
0xd7095df59d6a0875ull,
0xd70d7751ccc0d0d6ull,
0xd70e97cdf638b78dull,
0xd70f1bcf251ef8d6ull,
0xd71666e1d5854854ull,
0xd71c6fa291ec0a24ull,
0xd7218f032044fc19ull,
0xd72787575933d6a2ull,
0xd72eb33d33cf6fbeull,
0xd7380047c7445feeull,
0xd73832982351c04dull,
0xd74dd0a8edc565e9ull,
0xd74e73c2b92f391aull,
0xd752423667044b39ull,
0xd7536c76e1b33766ull,
0xd7564db424a3df38ull,
0xd76067947f4e1048ull,
0xd7637dd7a4cd515dull,
0xd767e68a9abf3e22ull,
0xd76c637e4f3bd530ull,
0xd76dc2b03cc0db44ull,
0xd76eeed876bf3321ull,
0xd77272dda529c83dull,
0xd7791bb2caf22ba1ull,
0xd784b7fa44b3e073ull,
0xd789c720982b271bull,
0xd78e3b22593b190dull,
0xd79474a3b9bca171ull,
0xd794ac879d3b5c65ull,
0xd7985870534e8b11ull,
0xd79acd71022ad1e7ull,
0xd7a0a59aea1036adull,
0xd7a37728061b4389ull,
0xd7a39f87fb7f8a24ull,
0xd7a654370f577fbcull,
0xd7a7dbcab804b165ull,
0xd7afce9032e4eb41ull,
0xd7b0f9675d6ec83full,
0xd7b26b65b707d4c8ull,
0xd7b68b8cf162935cull,
0xd7b81cb3825ebc80ull,
0xd7b8d68f40041eb0ull,
0xd7baaed65066afeaull,
0xd7c18bcd6ce12695ull,
0xd7c31742642de7a7ull,
0xd7c46d56867668daull,
0xd7c6530d5b1a9965ull,
0xd7cc4e96786c2c9cull,
0xd7cc565428996697ull,
0xd7d2637076394d0dull,
0xd7d90dc8647ad3a4ull,
0xd7db89a92301955full,
0xd7dd11a5ac5f1eb7ull,
0xd7e585aec099cc8bull,
0xd7f2b7b0d27a8a69ull,
0xd7f42d1979592accull,
0xd801ab8db7be7167ull,
0xd80743976b084550ull,
0xd80878f027702104ull,
0xd8087a0357b9b8b5ull,
0xd80face14647718full,
0xd812fb3d213810ffull,
0xd81418258a4cefa9ull,
0xd8151641ebc7c146ull,
0xd8167c38cba4e55bull,
0xd8192cc55c94d9d5ull,
0xd819ca3c31c63d6cull,
0xd81f6038cc18b166ull,
0xd8208a108e97afb9ull,
0xd820c65e2687986cull,
0xd8299a980f99ed51ull,
0xd829c956499da3beull,
0xd82af084ee0651d2ull,
0xd82bb47f5addf381ull,
0xd832c2c052a97126ull,
0xd8380a5c6a28895bull,
0xd8424c47e3b5699dull,
0xd8438f1e669e9bdfull,
0xd84540f3b2e0eb58ull,
0xd846e6e1446737d5ull,
0xd84f1aadc40706cfull,
0xd852c8f798a4c3a6ull,
0xd863b688ee89e853ull,
0xd863fd6610f4bf02ull,
0xd866da54c88dcff6ull,
0xd868b330959a3dedull,
0xd86abf399002299dull,
0xd86e74ba2cbdfae9ull,
0xd87078b4f0f06739ull,
0xd87358f93abba352ull,
0xd8752e748f3103faull,
0xd876cd9b1dc4c5b0ull,
0xd8796a3c2e366a25ull,
0xd879bc942f9a617bull,
0xd881d48d3f77b077ull,
0xd883c607670bb45aull,
0xd88a22c3ef46cdebull,
0xd88b21fac69bcea5ull,
0xd88b4db40bed48edull,
0xd89b35019421425dull,
0xd89e6f3c4f00b990ull,
0xd8a097409a9c22d4ull,
0xd8a671247d1349beull,
0xd8ac3907e0bd6c9cull,
0xd8b10c40a70369ebull,
0xd8b4597ad87466f9ull,
0xd8bcaca504006aa3ull,
0xd8be0dfdb77bf97dull,
0xd8c1005812b08960ull,
0xd8c83d880b4f4d24ull,
0xd8cd95466f4f3edeull,
0xd8d032a08063c250ull,
0xd8d6224507b18845ull,
0xd8dbdab49cab1bf2ull,
0xd8dbf110670d5c40ull,
0xd8ddc1d665ea9d52ull,
0xd8faa04dcec724c1ull,
0xd9100e4a26970d43ull,
0xd911f3f8c11f442aull,
0xd925ab2aea048462ull,
0xd92fa6c89eb46200ull,
0xd9372b8ebd51dc58ull,
0xd93a028e6f7288b9ull,
0xd93f69f95611bb30ull,
0xd948fe20d7df8475ull,
0xd94a5728ef6d4cb4ull,
0xd94a6b49fb3a1caeull,
0xd94b3282f883fddcull,
0xd94bc7497bc8859full,
0xd94f29c203aac51dull,
0xd94f394ad6f64fa5ull,
0xd95117fc64a8b2e0ull,
0xd951dd27b8d38340ull,
0xd9528f77156f249aull,
0xd959c01ac9647adbull,
0xd95de83ece4d23cfull,
0xd9634ea510214b20ull,
0xd9662c3137dfe6d4ull,
0xd96a174d696bd8ceull,
0xd96b61b1e817de83ull,
0xd97a4cbb0ff2686dull,
0xd97c946bf1e05ac3ull,
0xd97cf0342be25b72ull,
0xd97d43b37fa277f4ull,
0xd97d7ca4a0cf2e2eull,
0xd98acfc430593d9dull,
0xd98cc33d4dc35a35ull,
0xd98f007c41aa61fdull,
0xd98fe3778bbf4c7cull,
0xd99081e398bf2485ull,
0xd992ea625ffd5f3eull,
0xd99838d2bdf1e7ccull,
0xd99dda1bcad13fe0ull,
0xd9b38f621c2f9bacull,
0xd9bdcf12f4d5aca7ull,
0xd9c2aceeffe59d55ull,
0xd9cc92da4bf13af4ull,
0xd9cf265bc974d8c0ull,
0xd9d24aee55458ff1ull,
0xd9d67083f49746f7ull,
0xd9e189dd073205c2ull,
0xd9e1d46e39aaacc6ull,
0xd9e36b227483af39ull,
0xd9ebb8008607a637ull,
0xd9eeaf0f2f8ec782ull,
0xd9f6b89e7736d3a6ull,
0xda0176a6b2203916ull,
0xda06957a367aa1b4ull,
0xda12f05cb7277aedull,
0xda1a3029e8d45f30ull,
0xda1c047a9c25c9f0ull,
0xda1c06ebecf049cfull,
0xda24922f2524090aull,
0xda266017a454d012ull,
0xda2783f38547bdf4ull,
0xda2b63b493c0b124ull,
0xda33f188d420e5aaull,
0xda3c2529e50ad175ull,
0xda4d44400433770bull,
0xda50d26123803e43ull,
0xda526a950b160ee1ull,
0xda592e7f640295f3ull,
0xda6156d86dc911f6ull,
0xda6b3a353dc9ab4eull,
0xda6c4540ed5dad13ull,
0xda6ef190791c39f0ull,
0xda706bed7d9ce017ull,
0xda72a65ff62f69bbull,
0xda72c5efb50daca2ull,
0xda76ca8a1813e253ull,
0xda7d143ce52e71a8ull,
0xda83aacf407a4b38ull,
0xda94cc5f51355c44ull,
0xda97477de7ca64e3ull,
0xda986962dfc2d145ull,
0xda9c3a9bc5c720e7ull,
0xdaa7ebd0ab483a69ull,
0xdaab0bc6cb93c7ceull,
0xdaafb9dfee32bfafull,
0xdab0b5fa13fd5865ull,
0xdabb86c414656d9full,
0xdac428ae0e3a88caull,
0xdac49e588b95a9abull,
0xdacc8d89de540128ull,
0xdad1dd04ee0f67f4ull,
0xdad46d72461b9310ull,
0xdad59833d0128191ull,
0xdadb915a2b4b6d57ull,
0xdadfde4cc597dd24ull,
0xdae99e201cabc7d9ull,
0xdaef0ba9f6ad8218ull,
0xdaf7dc14c8ed5159ull,
0xdb021ff78eef364full,
0xdb04bbf9b8980623ull,
0xdb0b8a48f24fb9a0ull,
0xdb172023027e0934ull,
0xdb1e3e917ea09a93ull,
0xdb24167a97cf35b3ull,
0xdb3075b9f9f2865full,
0xdb30c0bc3a2ffcb9ull,
0xdb32da11a54b0e1bull,
0xdb3fa8b204396998ull,
0xdb402892900e0267ull,
0xdb43f48be4a47f0cull,
0xdb48a974c4bd0ad6ull,
0xdb4bc6f159b6ffc1ull,
0xdb4f870d223ace8eull,
0xdb53303ad98fbb2bull,
0xdb570af757309fa3ull,
0xdb588961cf9eea04ull,
0xdb628bf74ffe0a2cull,
0xdb6617bc54a4a1bfull,
0xdb66ba35f173e94full,
0xdb730e290760ef88ull,
0xdb73b2eb6bf635c5ull,
0xdb76dbd84af951bdull,
0xdb77a6eab7faaf6aull,
0xdb7bfab6216d784dull,
0xdb84ffbb27666e5dull,
0xdb93ba2c46bbb7c5ull,
0xdb97d7f21a13b4d4ull,
0xdba15673718e0194ull,
0xdba167057f0f1649ull,
0xdba1b5755f4507c7ull,
0xdba6341dd838dee0ull,
0xdba6da36a6a88147ull,
0xdbbd520c274e5196ull,
0xdbbdd2aac79844b6ull,
0xdbbea2774dfad8bcull,
0xdbc4a9c26fb3fc7eull,
0xdbc85e04a72365afull,
0xdbca93336141f7edull,
0xdbd1ed3ddb026345ull,
0xdbd7158c4053a755ull,
0xdbdce3f4338b8622ull,
0xdbded503c9fa2c81ull,
0xdbec47c8e52d3bb7ull,
0xdbf47cfaf0c359ebull,
0xdbf8b25e9647c857ull,
0xdbfa60d9134d3a46ull,
0xdbfb60df58ffe49full,
0xdbffcda83f745f32ull,
0xdc028c14e0366252ull,
0xdc03ac5ba27b611bull,
0xdc03cacfa49c4555ull,
0xdc05846949c248c6ull,
0xdc0c2cb44b79093bull,
0xdc0d36682179883cull,
0xdc0f331a5d3a1612ull,
0xdc110280722181faull,
0xdc12127ebf851f71ull,
0xdc159ce0dcc8ad86ull,
0xdc16e6621018c35full,
0xdc2387f80c89e00full,
0xdc27bed4ee1fb14dull,
0xdc299fedbc3314deull,
0xdc2a16832e0f5c19ull,
0xdc2c748d509c7cdcull,
0xdc2d10f3ec9a1e09ull,
0xdc35236a5dbad554ull,
0xdc3a4a561f62dcbeull,
0xdc3c6c5670e2c7e3ull,
0xdc3d006539040722ull,
0xdc3e1f82b03efe75ull,
0xdc3f9299d3c1ce01ull,
0xdc403058fe4118e6ull,
0xdc40565e5858c7e3ull,
0xdc4141c96a2700f7ull,
0xdc432d5963a0985dull,
0xdc46912355fb6c6aull,
0xdc48f751994fd985ull,
0xdc4eed25475b5ae4ull,
0xdc5bbd1672d66294ull,
0xdc5e82897ad68303ull,
0xdc60ca953193d2d9ull,
0xdc62c702d1afc5baull,
0xdc6b649d943ad742ull,
0xdc6cb2c039303e19ull,
0xdc6ef08a1994036cull,
0xdc728d4cc03972e2ull,
0xdc78a30841440628ull,
0xdc84c1e399160295ull,
0xdc9345c6604f9809ull,
0xdc95e91b08c1fcafull,
0xdc9ab2357d576be0ull,
0xdca2d346e50b71e8ull,
0xdca59104dc95c2bcull,
0xdcb5249036cd6e6full,
0xdcbbce23eed98d37ull,
0xdcbe7fc1ce5e761cull,
0xdcc489731e086eebull,
0xdcc664ee73e54e0cull,
0xdcc86f9aa319d54cull,
0xdcca5458be228e45ull,
0xdcd04d24e552a8ddull,
0xdcd4c41ae95222a9ull,
0xdcdda7ca287e73baull,
0xdce2e2835355140cull,
0xdce5fc1670f70df6ull,
0xdceafc1339c5cc5full,
0xdcf07ceaef302af4ull,
0xdcf258d3f8860404ull,
0xdcf380efa67f7089ull,
0xdcf421c4d83bf4e9ull,
0xdcf7a6dab8b6f2f6ull,
0xdd005535f31df508ull,
0xdd06dfad19090ed6ull,
0xdd076d813291c8a4ull,
0xdd0988d25ae31693ull,
0xdd0a5f746c72bbcdull,
0xdd0aa56760a8c930ull,
0xdd0ff40817852d5cull,
0xdd109a7be1d1ec70ull,
0xdd13cb263247bba0ull,
0xdd160f1996bbe0deull,
0xdd1bd6e1ddd7b39dull,
0xdd1dca265e8deae9ull,
0xdd1eabe6c4b6356aull,
0xdd22cbcf3cbfb97aull,
0xdd279abdeeff5b91ull,
0xdd2b10e8cbca2244ull,
0xdd2d68aae102b0d7ull,
0xdd2e5b5ddfd9e010ull,
0xdd336d9c87eb552eull,
0xdd33867d35701bb3ull,
0xdd3544c338884575ull,
0xdd3d16b1f2f0da71ull,
0xdd49c9643754a89dull,
0xdd505590a6019303ull,
0xdd50d9f98931e2b9ull,
0xdd51306583981e33ull,
0xdd54209cf95be8d2ull,
0xdd55e1e93e633579ull,
0xdd562c3329907795ull,
0xdd59c927fb9102b3ull,
0xdd60377e8a0efc15ull,
0xdd6e05a1942ce234ull,
0xdd73d30aa60844abull,
0xdd87ac3d28302152ull,
0xdd8b767a5d289ce3ull,
0xdd8de6648273778dull,
0xdd94280a7d017273ull,
0xdd979945539b8e1full,
0xdd984e21999f61f5ull,
0xdda00be600baeff3ull,
0xdda28a06f5c17a52ull,
0xddb3c3eb89ce32e4ull,
0xddb472b7e159a264ull,
0xddb74a2d028219cbull,
0xddbc266d257efa97ull,
0xddbc7c783000b7cbull,
0xddc4f23a8c1ce0f8ull,
0xddc8b155dd04344bull,
0xddca216a66bb3c43ull,
0xddd2a97d9628ae28ull,
0xddd954c39109a50dull,
0xddf6a78cfc1c0257ull,
0xddfeadc7096682d1ull,
0xde016947cad088f9ull,
0xde01e7b60c20940full,
0xde0bf5a4b1827013ull,
0xde0db8070c750552ull,
0xde10f986c0eb000dull,
0xde190e441f00740full,
0xde1a254206648cb4ull,
0xde1d67948d3f379cull,
0xde23d94add4542edull,
0xde23f2fa2a3866edull,
0xde2559ea201b29e1ull,
0xde26f1142c60bf46ull,
0xde2e0c89054e8df6ull,
0xde30bc506266423eull,
0xde312e5a425bdbd8ull,
0xde330a9d1830c5e4ull,
0xde402368ca775c71ull,
0xde43613a2f633737ull,
0xde43afc24d359ff5ull,
0xde533bd9ebfac871ull,
0xde5c048f76c3c6f3ull,
0xde5e8c7d37b92c7eull,
0xde788f99d05475c5ull,
0xde8375f43f1f5b78ull,
0xde8379b716cc15e7ull,
0xde8584d3e49059e2ull,
0xde89e1555c167a3cull,
0xde8dca4b452cad5full,
0xde9c0d2f1c6a78adull,
0xde9c11dadbab2d27ull,
0xde9c3980078b9baaull,
0xdea855550ebc6167ull,
0xdeade72ad8436cdbull,
0xdeb0589ee0370aeaull,
0xdeb3d947786b564bull,
0xdeb56d90a77dc8d7ull,
0xdeb80dde6d90671dull,
0xdebdadb375fc5229ull,
0xdebe40f27d6fda0full,
0xdec385150787aebeull,
0xdec70b4b8487e8f2ull,
0xdec931f70991b7fdull,
0xded5b7a5e2a365b8ull,
0xdedecc12c68a5fecull,
0xdedee7d0b189bf1bull,
0xdee39fdc92bd6d3full,
0xdee7dce03e9d3f7full,
0xdee9359f7e38c4b8ull,
0xdef5561c7c817124ull,
0xdefc66d66b20bbc0ull,
0xdf06b64537ef4692ull,
0xdf090be4f86a2130ull,
0xdf0c77f6be995308ull,
0xdf1035f58d75f6e2ull,
0xdf16aed1cdebc8c6ull,
0xdf16efc19b065e38ull,
0xdf175292469dd27bull,
0xdf1be03e3454d843ull,
0xdf21dfca82281727ull,
0xdf28f8842770ea34ull,
0xdf2afe1073761284ull,
0xdf2bf8603d351a99ull,
0xdf3951e474457975ull,
0xdf403657347d6060ull,
0xdf41f9c6e58e658cull,
0xdf4ba818bbcbda38ull,
0xdf4cca074f019216ull,
0xdf4dd25636b62a87ull,
0xdf4de057cb750f38ull,
0xdf55ad7544a45850ull,
0xdf611e2c5599c9feull,
0xdf6b471fb31771d7ull,
0xdf7002e79d41daeaull,
0xdf71803767611ea9ull,
0xdf7ee70fe67757b3ull,
0xdf85527e4bfac6faull,
0xdf864d36d9ec8660ull,
0xdf8bbd96bb09040full,
0xdf8c0e97388ccf51ull,
0xdf8d83528ee4f96full,
0xdf9362d36052a133ull,
0xdf945c959a646834ull,
0xdf9522798e85581bull,
0xdf9a178f3c16eccfull,
0xdfa5811932845b42ull,
0xdfa58cc5e97621cfull,
0xdfa9dc9bb39985ceull,
0xdfb53e8b70714acfull,
0xdfb548c611a06afbull,
0xdfb5c45d8a0f7876ull,
0xdfb7a339926ea6f8ull,
0xdfbb7e0b1d7bdf39ull,
0xdfbc8d87220b6057ull,
0xdfbd445b16c5ab52ull,
0xdfbea78da5c11200ull,
0xdfbf0b0d0df4c787ull,
0xdfc413b535d5eabcull,
0xdfcaa8d0bfc1c850ull,
0xdfd4b387fdf99154ull,
0xdfe64321688e0a8eull,
0xdfe792f3e70bb8c7ull,
0xdfee1019a99c15c0ull,
0xdff1a2c495d4d069ull,
0xdffc561b54d32a48ull,
0xe00375709e899802ull,
0xe006c3fba7661cbcull,
0xe007f7a098ff35ecull,
0xe0138b57fad21f99ull,
0xe01b59cafec0f5cbull,
0xe02bdc6ecf71008full,
0xe034d20d005598a6ull,
0xe03f483b863214f2ull,
0xe047a7e608d196d1ull,
0xe05bde8ee60b3c00ull,
0xe06b62da80482632ull,
0xe06dc59ea331bcc2ull,
0xe072e01441044587ull,
0xe0740a543dfe6f69ull,
0xe074b277061fe66aull,
0xe07637530bea2074ull,
0xe077f71852c5ef04ull,
0xe07c2346b7b39e7bull,
0xe0815d3d900372a3ull,
0xe0815f11485c4a96ull,
0xe084a5440bd0b674ull,
0xe08993a7d49dbb41ull,
0xe0986319e1f954e3ull,
0xe09a1d2e8706f731ull,
0xe09f8f501d653373ull,
0xe0a0e22c99a84205ull,
0xe0a3056829ed0f27ull,
0xe0a57fb0004f100eull,
0xe0aed1e70fdbe2c9ull,
0xe0b17f7dfd7d5941ull,
0xe0b1f0589ce973cbull,
0xe0b4d460e4594909ull,
0xe0c00d1044f108aeull,
0xe0c1b05ab6c0856cull,
0xe0d3e87d3868d4dcull,
0xe0d4d4114308bf32ull,
0xe0d9a6018882464dull,
0xe0da44193c7b05eeull,
0xe0f43d3d604f989bull,
0xe0f9f628ef9e071full,
0xe10122703551bc60ull,
0xe105505222b5b3b0ull,
0xe107538be48a6b4eull,
0xe10b06207f56e511ull,
0xe116e6a04c0bfe0dull,
0xe11834534cc242c0ull,
0xe1191734e43c843dull,
0xe121ce031aee6ab8ull,
0xe12637ee26aa9f31ull,
0xe127ccc81e994054ull,
0xe1291d47edeaaa2aull,
0xe12a1190b097d421ull,
0xe12dc25691c19473ull,
0xe12e75dacc2cfc27ull,
0xe12f68d6264cfeaeull,
0xe13298231de697aeull,
0xe140948f60c2ffbfull,
0xe145d969c8514d7cull,
0xe1466be0332036e9ull,
0xe147d06d5d11f8a8ull,
0xe15709a5f1f39a18ull,
0xe1570ca9c6af9602ull,
0xe162427f3135a031ull,
0xe16371a8558f6ac6ull,
0xe167fe442242488bull,
0xe16c2752f84f6cc8ull,
0xe16ceb26230c8d4eull,
0xe1768865b3fe6c4full,
0xe1777302419a8e8eull,
0xe1783df26eb58565ull,
0xe17dc215a5629953ull,
0xe18418b9ab372ae7ull,
0xe1844f526a376db2ull,
0xe1888e074a9af2d2ull,
0xe1952a95fbd84d8full,
0xe195b19f5d81ab89ull,
0xe1965afdf6a7f8a2ull,
0xe196707eb31a57d4ull,
0xe1a1d585bdc4e942ull,
0xe1a3336756369525ull,
0xe1a4994cacab1dfeull,
0xe1a6b3ce475aa483ull,
0xe1ab3aeba404042eull,
0xe1abc57ffe137197ull,
0xe1ac73c9e22988a4ull,
0xe1acdc0ddc661c4cull,
0xe1b465d0a22583beull,
0xe1c023c2d1735d6dull,
0xe1c0a9f429dbccfeull,
0xe1c53c5796ad485dull,
0xe1cbdcc34df5cd1aull,
0xe1cca295afcc367bull,
0xe1ce8784e4b595b5ull,
0xe1cf16391b206960ull,
0xe1d1b4b6ebe6a9e4ull,
0xe1d36b62955c652eull,
0xe1d95f1fd6701ff0ull,
0xe1daa61fd8c6aea5ull,
0xe1db2555a5c49347ull,
0xe1df50282f4cdaaaull,
0xe1e3c1d47f716fbeull,
0xe1e6d6232430b674ull,
0xe1f131f7c17f2b34ull,
0xe1f3924dc23fe0b2ull,
0xe1f537c63006b7efull,
0xe1fc3f84587832bbull,
0xe206ebd6b04e55a1ull,
0xe210b9e8df049fd3ull,
0xe216eb0185bc1bc1ull,
0xe21a6d5f7fa182eaull,
0xe21ae1d264b729a3ull,
0xe2258813637523baull,
0xe22776da3d588bb8ull,
0xe2314eee96430c0eull,
0xe232f2cc3382885full,
0xe23303ee5988b933ull,
0xe2332259cdb0a233ull,
0xe236a2db9955e2e2ull,
0xe237f1cc34d1539eull,
0xe239389c97e28692ull,
0xe24098fe744fa7a6ull,
0xe24568ae5d802c9eull,
0xe24cf1e891958f54ull,
0xe2575dbc6ef9732aull,
0xe2579f172e5339feull,
0xe2607eceb3bf9a83ull,
0xe262a8cff90e20b4ull,
0xe262b09f7d66cee1ull,
0xe26994e015be3ffeull,
0xe28071c066845c27ull,
0xe281b22638b6de6cull,
0xe286754bae59b3bfull,
0xe289c0da18f705f4ull,
0xe28e4d71225866d4ull,
0xe29697766efb2916ull,
0xe2983d7f9e6c707aull,
0xe2afc273dc6dacc1ull,
0xe2b797f749118903ull,
0xe2bd9a77b797ee65ull,
0xe2c064eb8f3e8165ull,
0xe2c36b9bf559e53eull,
0xe2c945913ba82fabull,
0xe2d299699953d86dull,
0xe2d42d31e71cfcabull,
0xe2d5b6e9bea06bfbull,
0xe2d8bebfb78c35f7ull,
0xe2e0457aa8a7e306ull,
0xe2e0b94db0302677ull,
0xe2f0399beb8c4d88ull,
0xe2f26d25b6838893ull,
0xe2fcdbc44617fd5dull,
0xe3004f9910b126d2ull,
0xe303449d3d1f37e4ull,
0xe305d99c10bdfa1bull,
0xe30f4dc8c806f600ull,
0xe30f86402fb7541dull,
0xe318919c37ca6036ull,
0xe31a0da698fe3842ull,
0xe325603e8131f7e5ull,
0xe326bc69ff3c8c2full,
0xe3336239bed6ac81ull,
0xe334733f5de97eabull,
0xe33ae86395784c96ull,
0xe3407d9b84b0728cull,
0xe34ec0f0d6adc403ull,
0xe351f3fee07e978bull,
0xe356275f84f10056ull,
0xe3644848a2871d52ull,
0xe364fc9455b69fb0ull,
0xe36bec62a8e9176dull,
0xe36f97299ae44854ull,
0xe389161a518133c0ull,
0xe38aa77e0cb29003ull,
0xe38c2478c6d7cf4dull,
0xe38fbfe3162d3e1aull,
0xe3904ba185514b73ull,
0xe39102d4a75fbdd8ull,
0xe39312fb1e53242dull,
0xe3951a9f7e9fd45full,
0xe3979ded85a67579ull,
0xe39add6636ff9c81ull,
0xe39c8b994e2ca7f2ull,
0xe3a2f2f9817aa644ull,
0xe3a8435fa503ef29ull,
0xe3ae14a9ccfa3c9bull,
0xe3b97f030a1b7018ull,
0xe3bf9a4e087456e7ull,
0xe3c10763afe9d30cull,
0xe3c97f2c5e356260ull,
0xe3cd6e6da9642c79ull,
0xe3cf27eef41de208ull,
0xe3dc61d0787ec9edull,
0xe3e26e8e039cd0c0ull,
0xe3e2cfaea050c1feull,
0xe3e85a2c3cf32a8eull,
0xe3e8a0e4726f229full,
0xe3eaed0b113ca09cull,
0xe3ef0decd0ad683eull,
0xe3f3997d1a4953dfull,
0xe3f5ff0c532cd5ebull,
0xe3f6a316ea6fffd1ull,
0xe3fa6edcc596c43bull,
0xe3fc705bf5d64784ull,
0xe3fcc3a0040bcb90ull,
0xe40180876d245e17ull,
0xe4121bb5218afa6full,
0xe41ee0a3e4243a75ull,
0xe42bed4d2decefa8ull,
0xe43015a86635c74full,
0xe431aebe2e880d0full,
0xe432b1d959dca2dcull,
0xe432c7a2ff0f268bull,
0xe43342ba904107ffull,
0xe4345d24222f7a33ull,
0xe4357d0e3539c914ull,
0xe43a0d882965147aull,
0xe43f4340850ec298ull,
0xe44562b9a20aa0a6ull,
0xe44b0eb436680f9cull,
0xe44d8dfbb5987403ull,
0xe44f3dc139b1c506ull,
0xe4592886700996c8ull,
0xe465844425cb8fccull,
0xe46991170ecea667ull,
0xe46df506932c2711ull,
0xe4717aa0ff228228ull,
0xe479408cd2e387ecull,
0xe47d267dfa11be42ull,
0xe47e940d5fc264a1ull,
0xe47ecdcee8b1067dull,
0xe48692c051882b51ull,
0xe487d5e3e25d5c5cull,
0xe48cf789a34740aaull,
0xe48fc1d30736462aull,
0xe49008bc46d65a00ull,
0xe49282d5860628fdull,
0xe4961ebaa96fbee4ull,
0xe498a161ae7cdb8aull,
0xe49bdf0eff5f272dull,
0xe4aac1b338442c38ull,
0xe4ac5699336f6b7cull,
0xe4b0174cfa9a5df6ull,
0xe4b39710dd89e5e5ull,
0xe4b752311b1d3132ull,
0xe4b8aef79b5681c8ull,
0xe4b8f39a5b952a90ull,
0xe4c37b30879df874ull,
0xe4c3a54350b21de7ull,
0xe4c6100d4dc91e30ull,
0xe4caa4b7ccef5790ull,
0xe4ceea423265e9eaull,
0xe4d01e349cf21a41ull,
0xe4e2dfffca129d30ull,
0xe4f050ad3922ced0ull,
0xe4f6695083875647ull,
0xe4f6fb5f5713c647ull,
0xe500872e5d3460f9ull,
0xe511c018aad382d5ull,
0xe512262dd3dbd0caull,
0xe512cd9c04742cbeull,
0xe516ce22531a2a1bull,
0xe51b77d5cf0f83efull,
0xe51cea74e584925full,
0xe52485f79a4885cfull,
0xe53452751c0ff043ull,
0xe54622fc24e6c351ull,
0xe547e9286fc402f7ull,
0xe55001eb22c9119bull,
0xe5506d19e208ddc3ull,
0xe552ff14b58cff27ull,
0xe556d2a3ba6fa4b7ull,
0xe55944fb55b443a8ull,
0xe55f8a21a1537245ull,
0xe5681613c055a969ull,
0xe56fb1973c52208bull,
0xe574fe23f436e935ull,
0xe57797793546d415ull,
0xe57997039b21d622ull,
0xe57a458ffe42ee76ull,
0xe57df2d582b4633eull,
0xe58143b57cab8d04ull,
0xe5826d34ba617335ull,
0xe587266c77963379ull,
0xe58bc76656c81738ull,
0xe58f924d465a147eull,
0xe59034c36349e94bull,
0xe5920a1a2b8d6112ull,
0xe5980d4901b7484dull,
0xe598dc3d67c0ce28ull,
0xe59b0bd87614dd4full,
0xe5a807f7609f3e2full,
0xe5a83991aef72049ull,
0xe5a8da82626c1914ull,
0xe5ba62ba04af5ec7ull,
0xe5bb3a68edbf88eaull,
0xe5c0fb0126fe172bull,
0xe5c11d4f1fd45793ull,
0xe5c804525eb44294ull,
0xe5c9f6e8d6724889ull,
0xe5cbfd38cf8bc688ull,
0xe5e7c87262a9c756ull,
0xe5e8aff9944b6b7aull,
0xe5ebf0ce23e64bf4ull,
0xe5efdc4ba1e3374full,
0xe5f15aa156784d26ull,
0xe5f200e5e12d7e78ull,
0xe5f639955efee0a5ull,
0xe5f76f73d40f8e38ull,
0xe5f8f1f259032b49ull,
0xe5f99374fe4c0069ull,
0xe5feec88b5cc3685ull,
0xe60993e2a79cacacull,
0xe611b7dd7d223f82ull,
0xe61c8bb614ec2895ull,
0xe622e8cbdce3d4ecull,
0xe62b45758fce5646ull,
0xe62f9e9a0dc63f39ull,
0xe63562818e5da4b1ull,
0xe63e523b9c14b2a1ull,
0xe64b316625ce98a5ull,
0xe64b7b7d5dd78eaaull,
0xe64cde24f6de96f3ull,
0xe654f874d1e0fb98ull,
0xe65d36bdb6bdc79dull,
0xe65d46b7e0545c18ull,
0xe65d73adb901b00cull,
0xe660e93f7184e211ull,
0xe6614915819ebf38ull,
0xe6628c2227bbe450ull,
0xe663ad886a77a06dull,
0xe666ef85c0015786ull,
0xe66899b802aaf23eull,
0xe66bc8793e64dc0eull,
0xe6726b5a27981b81ull,
0xe67443f646c4fd17ull,
0xe67aa7a3a8e2cfe0ull,
0xe67d0e54d52906bdull,
0xe680aa218f064705ull,
0xe6813a07e22c4124ull,
0xe68180e72b673124ull,
0xe68542f6704f5576ull,
0xe68eb56f70248e82ull,
0xe691500991ea8362ull,
0xe6a8e06dda9273bfull,
0xe6ac4692d0775fcfull,
0xe6b00e9af45d8b5full,
0xe6b48f88379fc25eull,
0xe6b5c9530f738a44ull,
0xe6bf05e6d133fc93ull,
0xe6c179188d9b1cfcull,
0xe6c40bfadc9bb1f1ull,
0xe6c626109ef16878ull,
0xe6cd5e80ba475e60ull,
0xe6d4eda384745a0dull,
0xe6e4034462bf4398ull,
0xe6e6ee8b05fb9bcdull,
0xe6e85b9e9c2b0f59ull,
0xe6e8b2c9b5f1bfc4ull,
0xe6e9ef54912a0fc9ull,
0xe6ea7d88cf1c5964ull,
0xe6eb368728514ea4ull,
0xe6f6f461a86447d5ull,
0xe6fa72274d546b59ull,
0xe6fa7fbb2ca20a45ull,
0xe6ff809829cf1a44ull,
0xe7006ab10f6d760bull,
0xe70653399e16e16dull,
0xe706bec6e1d22fe3ull,
0xe70b507626b4cf4dull,
0xe7104da5d0cdeb92ull,
0xe711264417116da2ull,
0xe71619cee5b071fdull,
0xe71ba997888b66d7ull,
0xe71c4c2d106cc219ull,
0xe72158aa67cfbfc4ull,
0xe7286c2f960e24bbull,
0xe729257e0e64dc3full,
0xe72abf46a38ab9a0ull,
0xe72bb98f87c2edb2ull,
0xe731839b58790338ull,
0xe7387a49ccaa66d0ull,
0xe73c2b1cb8012f26ull,
0xe7407a25b84563bbull,
0xe7448e56468a70d1ull,
0xe74cb75fab9a0398ull,
0xe750dc6f93c686c5ull,
0xe753bdb02b33df34ull,
0xe75ae09d34535c0aull,
0xe762f3a9411d5c4full,
0xe763a0ca06ffaf3full,
0xe76503b5c7ed1a90ull,
0xe7684eb8543bac75ull,
0xe76c3e27610eaf94ull,
0xe76cb2ecbcc4c77aull,
0xe76cd782657e2208ull,
0xe76d96473e58b1fbull,
0xe774260a04c94362ull,
0xe775186fd32695a4ull,
0xe77685a8bfe7cbb5ull,
0xe77a7ab362bfa90bull,
0xe781d441ed2726b5ull,
0xe781e56322bc995cull,
0xe7862d4381844a96ull,
0xe79088679ae571f2ull,
0xe7944bd5142a8377ull,
0xe795b8770bd975ccull,
0xe795edf3a9fcbb6cull,
0xe7995c546174c78bull,
0xe79bbe5e4ffa57c1ull,
0xe79c4d270c18961cull,
0xe7a00508a12412d3ull,
0xe7a1cca2e9dc8423ull,
0xe7a667741d06e86bull,
0xe7ad9b7570197a5dull,
0xe7ada1bf3fcab88dull,
0xe7b8245695cdce42ull,
0xe7b9e9fc44f9469full,
0xe7bd2475ea90701cull,
0xe7bf671a4d33f703ull,
0xe7c654a5c316a782ull,
0xe7cc697bbda8284bull,
0xe7cef64a85cf122bull,
0xe7d18e7982bd36d0ull,
0xe7d34bf103f75644ull,
0xe7d3d79693cbec77ull,
0xe7e5d6196c8646d8ull,
0xe7eae29513a5cddbull,
0xe7ed171f7c569e2eull,
0xe7ef50e24ef70eecull,
0xe7ef55931062cd72ull,
0xe7f92ec867ba5adaull,
0xe7f996f3a39d1c02ull,
0xe80b6991c888347dull,
0xe817693b3ffea762ull,
0xe821ef168e3da892ull,
0xe82524c64221ab77ull,
0xe8326acb65473bc6ull,
0xe8333fdc44a790f3ull,
0xe836c8048986c117ull,
0xe83b243556cbb1b9ull,
0xe83e887cda99e2c5ull,
0xe844dbd5373bd936ull,
0xe845d48d4428e508ull,
0xe85066e48971f40bull,
0xe855507c53fc1b9aull,
0xe8580d58c5059899ull,
0xe85a15a5dac51703ull,
0xe864971ceb9693d7ull,
0xe86ad67d42eb9b08ull,
0xe86b9cbb71671c03ull,
0xe86f77cfb7460e74ull,
0xe87265eab7f8b454ull,
0xe873eac1d3d697a6ull,
0xe8791caea93afe1cull,
0xe879bdb459053a8aull,
0xe880051fb70bcef1ull,
0xe88544275cde2db1ull,
0xe887480e833bf560ull,
0xe888df867b37ddb2ull,
0xe88acb3ab2f4d89bull,
0xe88bb44c9247f3e4ull,
0xe88da4680a9ec1b4ull,
0xe899fd3ffb544cfeull,
0xe89a3554925cd38eull,
0xe8aa813c0b14cb5eull,
0xe8b00cf4ea160a0cull,
0xe8b375e921c7f7d6ull,
0xe8ba3a306c93df02ull,
0xe8baf5e4382f06ecull,
0xe8bfa4daf76ad6ffull,
0xe8c14ffc3449e028ull,
0xe8c438505ab773b2ull,
0xe8c5b58706a8e965ull,
0xe8c9db00b0f4f427ull,
0xe8d1f34620bc1b47ull,
0xe8d92caf7b1360f7ull,
0xe8dbfa277846d56bull,
0xe8dde8db25e46ea0ull,
0xe8e3f777826a84a2ull,
0xe8e5b5d57f608c9cull,
0xe8f215f47a9d5221ull,
0xe8f4317e5f5f991bull,
0xe8f44999ce1808d5ull,
0xe8f96a3bf9c71ed2ull,
0xe8ff048e65ea3534ull,
0xe8ff85a9fb6962e5ull,
0xe901d29edcb34cd7ull,
0xe9073e016c381205ull,
0xe90e30db1f195466ull,
0xe9116ad33104e45eull,
0xe917d41420a04fe8ull,
0xe91b9c137e4b7cdaull,
0xe91f2f6d43c0c139ull,
0xe9210ef64b74e94full,
0xe92dc357ec733721ull,
0xe92ea8b654116ccfull,
0xe93013a775064c65ull,
0xe932300b2a52a803ull,
0xe93aadf60f5eafa2ull,
0xe9423df134976636ull,
0xe9433db849eb21a8ull,
0xe949f60128af3269ull,
0xe9539d12cdd3cecfull,
0xe966e29c55c05188ull,
0xe9675330c8a1f2a8ull,
0xe96b104e701c76dbull,
0xe96b6eb84567a3bfull,
0xe97750cac57cb67cull,
0xe9800e3efa1d0194ull,
0xe984203c336fc7b0ull,
0xe98433d61b780c40ull,
0xe9874a8dc4bfb01cull,
0xe98a7c8c55a16964ull,
0xe98b6cb5d1d2ae29ull,
0xe9a4ca9935b1e662ull,
0xe9ad318b3886aff3ull,
0xe9ad38f6091b2c28ull,
0xe9b62db8593609aeull,
0xe9b8a04ca5f927e6ull,
0xe9b8a791517bad7aull,
0xe9c23958ddf55229ull,
0xe9c23b9acfc71f6dull,
0xe9cd25f434766032ull,
0xe9cd7d84e4e9483eull,
0xe9d1a44ec27fda15ull,
0xe9d65624fcc7e5fbull,
0xe9db90d0545229f5ull,
0xe9e61ada2266e060ull,
0xe9f8b6cc0e3bf1d5ull,
0xe9ff07303de35d9full,
0xea00d9d95c74fbe9ull,
0xea0bc0d6928b923aull,
0xea10c446d2a5ac10ull,
0xea125fcbb4c9cdc6ull,
0xea18bd1f0ffcebddull,
0xea2018bd49879438ull,
0xea2231db261f88a7ull,
0xea291e751f355064ull,
0xea2bb8753c35c8ecull,
0xea2dc9952a94b61bull,
0xea2e86e19038bb16ull,
0xea35a0f8302cd88bull,
0xea3dfe1fdcbdf516ull,
0xea43f0ade6a94275ull,
0xea446d77bde5ae0aull,
0xea4db232170f4552ull,
0xea4e2d51824c2844ull,
0xea4eaf4b80e798d9ull,
0xea4f089c399983baull,
0xea5308b60a87c2c5ull,
0xea5f54f57b4e6b46ull,
0xea66b24755971bbbull,
0xea67c1e69e0300deull,
0xea7581818b6eff36ull,
0xea79e740f790a3b3ull,
0xea7ac84b2807f050ull,
0xea80faf0371ce491ull,
0xea86b3b43ae90794ull,
0xea89aa4dedd30475ull,
0xea8ac368e90b4a15ull,
0xea9c6f263e84dba7ull,
0xea9d48713b24d0aeull,
0xeaa23aca5273497aull,
0xeaa51f3445eff10aull,
0xeaa7d2ba298bd5feull,
0xeab21ddf975f8e01ull,
0xeab3e922b02a2ebcull,
0xeabb55123761d820ull,
0xeac2cc2027223b0aull,
0xeac37318c57c9434ull,
0xeac3d17cc31e91b7ull,
0xeac445ea73ccc94eull,
0xead1541bb9578c4bull,
0xead31eeabe6e412cull,
0xead67c3deb8d0bc6ull,
0xeadcd020e52f137dull,
0xeadd03a10e917dc1ull,
0xeadd4002224b15b5ull,
0xeae3e654a1c45b6aull,
0xeae4b85b4c8bd7e9ull,
0xeae80c83794c238full,
0xeae828aacb610dadull,
0xeaee07b58f41df96ull,
0xeaf235657d4c1c4cull,
0xeaf4d06f7fa244ffull,
0xeaf614129440a8ccull,
0xeafb78b9202c42fdull,
0xeafbe9aaac3c9ab6ull,
0xeb068d2090a8822bull,
0xeb15a0ab2d5118bcull,
0xeb1751efe9a83736ull,
0xeb18267a937e8b3eull,
0xeb19542b308e99c1ull,
0xeb22bedbb9953a15ull,
0xeb29716ea849d39cull,
0xeb2984391834a02full,
0xeb2adcedf49ec3fdull,
0xeb3c57877da19d2cull,
0xeb3c7687cf9351f8ull,
0xeb437b17d5146f78ull,
0xeb468331c7d915f7ull,
0xeb4d3182ceb90ba2ull,
0xeb5673ae8c6d7b35ull,
0xeb61da32b455fc3bull,
0xeb62e8d9a2eeae17ull,
0xeb63416234797bc4ull,
0xeb67ef526d2b32ebull,
0xeb779317c50caf9dull,
0xeb7eb567f5dabbf2ull,
0xeb80772c95983d2bull,
0xeb9048e4edaef65dull,
0xeb95f1e7d00bd1adull,
0xeb98c9c3bf2cfe35ull,
0xeb9cbbe0f0a702ebull,
0xeb9d1c552c2dd20cull,
0xeba5128f0a32f37bull,
0xeba6c90645658033ull,
0xebb1f3480c7e3633ull,
0xebbb8f57766cf870ull,
0xebbde2ae0924d619ull,
0xebd8c37dd84cd54aull,
0xebdc30b426341d80ull,
0xebde0ab639bb898full,
0xebe28f0b7d5cd977ull,
0xebe4eea1f3978152ull,
0xebe96e398ab7fd5full,
0xebf1857ffb0b5631ull,
0xebf2958523da9a1bull,
0xec00dad2d7ea5832ull,
0xec05369f9fb60239ull,
0xec07f4f963d1e20cull,
0xec0ddd638d2ed690ull,
0xec1d3a261514fa0eull,
0xec1d5b59ace1a416ull,
0xec2c6df34f783523ull,
0xec2edb266cccaabbull,
0xec31ce613f6fa6d6ull,
0xec342516f60e7250ull,
0xec356b72be685920ull,
0xec4242a72c29cbb7ull,
0xec44c7179bfff94eull,
0xec4ad3f1c1c46847ull,
0xec508e19df2a07a0ull,
0xec534668011dbcb0ull,
0xec57becf1ebcd8fdull,
0xec5e55a5ba93e5ccull,
0xec5fc7fb7f1cfa5eull,
0xec63bc162e22efb7ull,
0xec6e8ce178cf3effull,
0xec75f87401006507ull,
0xec7753126e6da53bull,
0xec78a8842256dd56ull,
0xec7ab4093b93f6cbull,
0xec85be69744bedc6ull,
0xec86d2ec62cb6046ull,
0xec8939059a95d1faull,
0xec8e2e833d31117eull,
0xec8fcd6d609c04a3ull,
0xec970ddba24e200bull,
0xec97f2676564bf8full,
0xeca36f457c8822f6ull,
0xeca5d5a3e29d68aeull,
0xeca7f17d271f63ebull,
0xecac545c44ef3463ull,
0xecb6541e57bdf674ull,
0xecb9701049aa2d3dull,
0xecba1b9a1ff51406ull,
0xecbad8360b5a73a4ull,
0xecbfd96ea6713fd4ull,
0xecc6d2cc6077f63full,
0xecd7d422bfbf02d7ull,
0xecd95320621bcd15ull,
0xecdc4078a2e48ec4ull,
0xece4a7116d557b51ull,
0xecfb15cb19e2a008ull,
0xecffc8a3d7203543ull,
0xed03395bc80a5cb6ull,
0xed059ddb25a12d3aull,
0xed0a30912b170911ull,
0xed0bea765c427d98ull,
0xed11686199810f5dull,
0xed11e83f2ad209b5ull,
0xed14ff43fd89306aull,
0xed188ddec851d07eull,
0xed27f901b2235a5cull,
0xed280c9eb33a3ff4ull,
0xed2a5bf92f4a83e8ull,
0xed351199d1109dc5ull,
0xed36ea26922d76deull,
0xed393191bee640f0ull,
0xed3a346a9d8c4042ull,
0xed45332888a5e804ull,
0xed4883a1bee8886eull,
0xed4abc352e858361ull,
0xed4bf95a72389401ull,
0xed4ee80ae5889ba1ull,
0xed4fb479786fce34ull,
0xed5252ecea4ee1aaull,
0xed558c4fa9ac3301ull,
0xed5cb1a745d36980ull,
0xed61eb7229e85205ull,
0xed6497f5d80e1b51ull,
0xed6658388a5b6c39ull,
0xed6e3d31a32b6172ull,
0xed715ffc523bc3deull,
0xed72c3e06466afa0ull,
0xed75a0333eb97498ull,
0xed7c8294ef1d6303ull,
0xed819fce0205507aull,
0xed85189764b60aadull,
0xed87f24ca8b1ebe3ull,
0xed8bf54dcfdfd29cull,
0xed8c7d9a92a4d2e6ull,
0xed8daf2e2712ab91ull,
0xedadc32ec7718026ull,
0xedadcfcb612d4ee3ull,
0xedaec9d118c1ae83ull,
0xedaf052348589799ull,
0xedb45da08aead993ull,
0xedb7f878be9aeb3cull,
0xedb94c2531e71e99ull,
0xedc1212f95a06fe7ull,
0xedd2d694f42c155cull,
0xedd8c12e360dcd99ull,
0xedd97cb826c8c9feull,
0xede2afc0949216b2ull,
0xedebee3cb61679dcull,
0xedec1eff0841acdcull,
0xedf3f29caf3b1c19ull,
0xee0166fdc238644eull,
0xee03ca7295606e46ull,
0xee07a61eef900536ull,
0xee099333b0936f7full,
0xee16c61dbd388befull,
0xee1ae679481585b5ull,
0xee1aee70698e54a6ull,
0xee1edf7d548aed15ull,
0xee214a01d3021cbfull,
0xee229b6dc506811full,
0xee22bfc2d2c7e2aaull,
0xee2369421383da17ull,
0xee255a46f4f5ddb9ull,
0xee2af744fe6021f0ull,
0xee2e2115453e2e4aull,
0xee3148ce24d5f9c8ull,
0xee35e2fdcfdc6389ull,
0xee46e77227d78c61ull,
0xee4cd0077e25072bull,
0xee5ea6c038277edfull,
0xee61d3e5d80a64baull,
0xee66de40e9dd111aull,
0xee683142740c5d6aull,
0xee68a47d9b8bb959ull,
0xee68d01fb0909ecaull,
0xee69c0905909a4a8ull,
0xee73bc4876cb94a7ull,
0xee7508c61358b53dull,
0xee76fe5b36b01338ull,
0xee7d16de39d77c7aull,
0xee88b568eb4c7cefull,
0xee8aa1ef838bb031ull,
0xee945abbb17c883bull,
0xee98e6612c68d5beull,
0xee9a3fe5ba72a2bcull,
0xee9f4be812234e66ull,
0xeea8f7979753af7aull,
0xeeaba299a5a5b398ull,
0xeeb002816935117cull,
0xeeb8b7ed74962c2full,
0xeeb964de6e0c97c2ull,
0xeeb9e0ccd73521acull,
0xeed60d0345467734ull,
0xeee1d6b3d02f8e22ull,
0xeee723d9f98ce370ull,
0xeeeb0d944e41bd38ull,
0xeef63e5722fa1eefull,
0xef00eb61a526d72dull,
0xef024d9e16ba30d8ull,
0xef091b558fad4779ull,
0xef179f587698fd13ull,
0xef1804736cda0cf0ull,
0xef23716ed9283795ull,
0xef276739cec13cceull,
0xef27f077bd4a7739ull,
0xef2fe7f34beb456aull,
0xef30a630cabbc5b1ull,
0xef31c2ade08a01dfull,
0xef32f7b4a5d7d383ull,
0xef35f49d017176faull,
0xef3619f94c0e8df0ull,
0xef4098234b7e5cc4ull,
0xef421b37b5948d1full,
0xef42521a7eaf616bull,
0xef494101e16384baull,
0xef497266f0cd757dull,
0xef58e0084c10cc0cull,
0xef6445376caff232ull,
0xef64e59ae2e4a9f8ull,
0xef6768a20126a057ull,
0xef68405f45ad7eacull,
0xef7538c17e01a65cull,
0xef75622274f1db3cull,
0xef76f062d78273b7ull,
0xef81592378f4305aull,
0xef8d7fd186af0810ull,
0xef94dc6bd0e9349bull,
0xefa19d5bd563fe05ull,
0xefb0ba7467c79892ull,
0xefb33a7df911a9ceull,
0xefc5f8f823f5086aull,
0xefceb189ed31de2aull,
0xefd30090541a94abull,
0xefde5a6942f1f0caull,
0xefe14da5078575d9ull,
0xefeb65ef3ad01ec7ull,
0xeff7077173191ffaull,
0xeffafd7a52e444a1ull,
0xf002c7addd15c983ull,
0xf0034b3d19781bc2ull,
0xf00e5e1e97a6c2aeull,
0xf00eeddfc1c7ed8bull,
0xf00efd9e0dbf2a88ull,
0xf013dd26a75f2238ull,
0xf014a88e45e63a86ull,
0xf0177b2f2877d627ull,
0xf020f2b093b091adull,
0xf0235175d3def87bull,
0xf025b8f0fd8185f2ull,
0xf027a57f0ecd3205ull,
0xf0281b5ed43961ceull,
0xf02abfe868239ce5ull,
0xf02b8de326809e56ull,
0xf04120ab129a9e2dull,
0xf0479eaf2f2614ccull,
0xf04a60c6f7f215d7ull,
0xf051a45d68cab6fcull,
0xf05331eddafe9d4cull,
0xf05401cd6403bfe6ull,
0xf0602167b47de5f8ull,
0xf0657dd65a3134f3ull,
0xf069399d5fd186dbull,
0xf06ed6825a8bdfd3ull,
0xf083ad2b7727e85cull,
0xf08ba9643d2cd113ull,
0xf0907e241f04b53aull,
0xf099e26cca559d81ull,
0xf09b23aca40ec732ull,
0xf09c3c4b83904ac4ull,
0xf09f83c273b420b5ull,
0xf0a7520a2d42de74ull,
0xf0befa6473ff61cdull,
0xf0c19e2247f16900ull,
0xf0c4e7c75c05e8fcull,
0xf0c5d58c5801fe27ull,
0xf0c76cc37945e78full,
0xf0c88dd97c23a8a4ull,
0xf0ccdc682288c87bull,
0xf0d1b962680d7b31ull,
0xf0d5295216effdffull,
0xf0d98fd43680bf79ull,
0xf0dd68ec1d9dfd8dull,
0xf0ea31912498b5a2ull,
0xf0ecd74d723f5ccaull,
0xf0eeb548c4e4b2c6ull,
0xf0f93306c9378316ull,
0xf105398d0a85fd69ull,
0xf10e24fea558c5faull,
0xf12768dbc9c121d7ull,
0xf130283d32cb4f74ull,
0xf132212c3a087fccull,
0xf134f01d851158e4ull,
0xf135e40ff2d19564ull,
0xf13bda50a2adc483ull,
0xf1452bc6076485b9ull,
0xf14b4a52111834bfull,
0xf150dbaf50192377ull,
0xf158e1b036bb8c43ull,
0xf15cadbe1c7882ceull,
0xf1635bb997549feeull,
0xf16813b53dbb2fc5ull,
0xf18261e02948f0d7ull,
0xf1845075a7fe2105ull,
0xf1848389ce54b011ull,
0xf18e4188dbfda6deull,
0xf19820c0e82b1c76ull,
0xf1b10f7663bfde09ull,
0xf1b8f693c6704691ull,
0xf1c5763392b083ffull,
0xf1c74b731767be93ull,
0xf1c86927d6055c29ull,
0xf1d1f2396576c35eull,
0xf1d698bc2f5792d5ull,
0xf1d8e58aa467fde6ull,
0xf1d97d2f0ce4c5e9ull,
0xf1d992ab63eb0abeull,
0xf1db5cb99018b1a1ull,
0xf1e7c468d3e3ebe2ull,
0xf1eb4e5033b5343bull,
0xf1edc618c5fdc714ull,
0xf1ee4f517362eac7ull,
0xf1fa4304860b2753ull,
0xf2035c923b1fb69bull,
0xf203c596f03846a1ull,
0xf207e17c2c7fa0dfull,
0xf20cfb1495680ef8ull,
0xf2147706be853fa7ull,
0xf218dd278bc9506eull,
0xf21a1e8cefe00fbcull,
0xf21d58394c2f8fafull,
0xf227b78e76aa9e96ull,
0xf22c545c31c421a4ull,
0xf22c6420f0bc7417ull,
0xf22d2a1eb7635dbbull,
0xf22d6afb7898fd2full,
0xf22e8f8b34484df2ull,
0xf233e6fe825a3d2aull,
0xf2396cbc49f58e8cull,
0xf23a40fcd9de0c5bull,
0xf23a4afb16ac4863ull,
0xf23c303a233f538bull,
0xf241c3ef7c8e48dcull,
0xf246809fcfaab129ull,
0xf2475f40441a4239ull,
0xf2490c31eab5fa28ull,
0xf25730aaefab7fbdull,
0xf2574d2855fe280bull,
0xf25c595718020fa2ull,
0xf26c64a4fcfc836bull,
0xf2733fda52ffbafbull,
0xf27609c0a08216bfull,
0xf2787a0fc0db20afull,
0xf27a0e2ab2db5257ull,
0xf2857f66d6dad8abull,
0xf286ec95ae779762ull,
0xf286ef33006b005bull,
0xf28860fa72de7b3dull,
0xf28aaf95a61b99feull,
0xf290bae52b836fc5ull,
0xf292d4564009a69dull,
0xf293131d597cd421ull,
0xf2978844fc8a4de7ull,
0xf29c6de12dba4982ull,
0xf29ce6ab03c249e7ull,
0xf2a642a1c4f87a54ull,
0xf2a7688892f8ad64ull,
0xf2b0d57140593f31ull,
0xf2b2d7f5586ff6ffull,
0xf2b49135bedbde87ull,
0xf2b52016869b37eeull,
0xf2ba51230458c57bull,
0xf2bb90e9b0c9907dull,
0xf2c4655ec69be8d0ull,
0xf2c6c27d278c3a3cull,
0xf2d00d92779d6b5dull,
0xf2db2db24c7ea9f9ull,
0xf2ddb4ddc89054beull,
0xf2e62b362a496174ull,
0xf2edd6a1396032a1ull,
0xf2ee209d3f589f92ull,
0xf2ee535b2bebdb69ull,
0xf2f37533ae5d3fb3ull,
0xf30060099cd71dabull,
0xf305409a096c97daull,
0xf3084d88dbd4466cull,
0xf309c817f4316ca8ull,
0xf30ca2aa82f26afcull,
0xf31041e416f3648cull,
0xf316ee10487c6c45ull,
0xf316ef47d8f59c15ull,
0xf3174de30b6f61beull,
0xf325a86ab0e462a0ull,
0xf32f7328f78f61ceull,
0xf33112bb99b8fe40ull,
0xf33433d1a7325914ull,
0xf3345442fa29cccaull,
0xf33d6879ea425e3eull,
0xf33e553a0e9469feull,
0xf344d744baa20312ull,
0xf34d3a100d3d2410ull,
0xf34e1664d2da62e5ull,
0xf34e36024d42c00cull,
0xf351f5ba88863eacull,
0xf35d43f79333117eull,
0xf35fd2f8753b1a80ull,
0xf3605583b825cae2ull,
0xf367095e4cbabe39ull,
0xf368d0c0e9af6e3cull,
0xf3709dcc5fcadfa3ull,
0xf3722b790bc9bc69ull,
0xf372f12b666b52b4ull,
0xf37489c03b7748bdull,
0xf3751c173c6a65fbull,
0xf379a68c8dbf852cull,
0xf37ac9a5a8604f43ull,
0xf37c851eb7a80c77ull,
0xf394b3332967dc3eull,
0xf3960e8612ecc791ull,
0xf39ba9195e10781cull,
0xf3a07862653a4a06ull,
0xf3a07bd3959e57f0ull,
0xf3a28227e1f65502ull,
0xf3a2f6e7b9e83be3ull,
0xf3a66fa74cd5c2bcull,
0xf3ad74c6c8df59b6ull,
0xf3ae1c23dc1051cdull,
0xf3af230492b0798full,
0xf3b22f391e9a4affull,
0xf3b3d6b8a938edd8ull,
0xf3b6ee8c7c2f671dull,
0xf3b9fb4cb999f9b3ull,
0xf3bdfbefd2b43c2aull,
0xf3c85adeb0756faaull,
0xf3c885f733b92d17ull,
0xf3c95ef85ddb3166ull,
0xf3cfc6ad98a3ba40ull,
0xf3d147dbe0bf5ac8ull,
0xf3d1b19f882db47aull,
0xf3d8361892eb5369ull,
0xf3dadc840046cd60ull,
0xf3df4d82b80e1bb6ull,
0xf3e428d04c1e9f47ull,
0xf3e63af78f9c1f22ull,
0xf3e7dabd7275a6d1ull,
0xf3eec396d63cc6b3ull,
0xf3ef87a7151bad0bull,
0xf3f40aaad4534f4aull,
0xf3f6d778e4365d84ull,
0xf3f9c9387d5cfa12ull,
0xf3fd92024a53b65full,
0xf4093faea8802e75ull,
0xf41efaa187e74b57ull,
0xf42902ab77a80d30ull,
0xf42af9791bfe0249ull,
0xf430994053015fd5ull,
0xf4383a507536d83dull,
0xf43ea4e36bc01b85ull,
0xf43f972cfc71eb39ull,
0xf4438ca0a710c773ull,
0xf44632fb9d6f4099ull,
0xf44ca607ce1d0bf3ull,
0xf44cc27c568fe6a6ull,
0xf4502b61d8112d63ull,
0xf455bc6106025fcdull,
0xf45aed32fd817525ull,
0xf46a1a47f4a61b77ull,
0xf46e7b62fba6ac3aull,
0xf474735030e8574full,
0xf4786b7586e5e4f2ull,
0xf47cca80f15e46aaull,
0xf47e392df90fa90eull,
0xf4811089dbb82c6aull,
0xf484505880dda3aeull,
0xf485f569e959f90aull,
0xf4977a96d51e8f9aull,
0xf497a4bbdf45a4d3ull,
0xf49a78d559b632e3ull,
0xf49f6092893a34edull,
0xf4a22d0a96658f6eull,
0xf4a49b754f1aac02ull,
0xf4ac90864ddb98f2ull,
0xf4acfc317fced07dull,
0xf4af972dcb95cbc1ull,
0xf4b2083015057283ull,
0xf4b61d1c87baa3b2ull,
0xf4b7a0cfaef9b9b2ull,
0xf4b8a1c4763f4893ull,
0xf4c543751e17b917ull,
0xf4ca7dc01a774606ull,
0xf4caa0c48b302e6full,
0xf4d6392e142bec4cull,
0xf4da09522bfd60d4ull,
0xf4e2defb3cdbbc92ull,
0xf4e2eb4da9df75beull,
0xf4e7a1f3e900eed1ull,
0xf4e8d2b033434793ull,
0xf4eaa07c02342776ull,
0xf4f2efd62bbbc9cdull,
0xf4fdec4a89d1b25eull,
0xf4fec2942d548614ull,
0xf4ffca2b09c0db05ull,
0xf500fddc0d3ebf6dull,
0xf5018a02acea305dull,
0xf506ca6c2550009dull,
0xf50827ecc5cca1a4ull,
0xf50fdc16b414aa70ull,
0xf511585f73c2318cull,
0xf5166a42533fd33dull,
0xf518a07df6bc8e50ull,
0xf525bd03aff0c732ull,
0xf528d561871f7e22ull,
0xf52eb6f8c81a672cull,
0xf537dfbc27efcb2cull,
0xf54ab858c8767af2ull,
0xf54c32b3836a10f1ull,
0xf551731da022b6c2ull,
0xf557dc49277c0c41ull,
0xf559e3a0e64f03eeull,
0xf55bf1a72aa472b3ull,
0xf55ec867e8749dc4ull,
0xf56cb2fc9358113bull,
0xf571efcaba18d312ull,
0xf5763db35dd82db8ull,
0xf57bf182050bd565ull,
0xf57c48566aac1d39ull,
0xf580b83d0308f7afull,
0xf582cbc3ba0f0fbfull,
0xf582dca21471d719ull,
0xf5933d024aebcf9cull,
0xf596cea7eb21d2e3ull,
0xf599e11aa6e05f25ull,
0xf59f3ae6b2f7a2b6ull,
0xf5a5793bf998a366ull,
0xf5b541a70374d4afull,
0xf5b5c996edb200f7ull,
0xf5ba9511b6ffd1d1ull,
0xf5bf4b825d1da4b7ull,
0xf5c0631ffc3c376bull,
0xf5c1c06dbe5fdb93ull,
0xf5c1d64608aa71afull,
0xf5c32b5e9a311555ull,
0xf5c67aeeb8b1e8bfull,
0xf5cd9f26f0cd6b81ull,
0xf5cdbe2952fb0048ull,
0xf5d150d7a443fecaull,
0xf5e4abd209878437ull,
0xf5e60f9a963245e2ull,
0xf5f04cc3c4a6e2bdull,
0xf5f7fbfbb7ee5f4cull,
0xf5f9a691189ced81ull,
0xf5fa41f8875d5c4bull,
0xf5fa487129090febull,
0xf5fec7ff46fb27eaull,
0xf5ff6f62f1a74c81ull,
0xf6027fe80fedb8eeull,
0xf61806aef4a8d4fbull,
0xf6197c73add4998full,
0xf61cfc507161da37ull,
0xf62cfc291a9862bdull,
0xf632a43e08583829ull,
0xf636c6863b6b18f7ull,
0xf647c8249f2ca6a9ull,
0xf652cea31e3a1804ull,
0xf65404504b85a0acull,
0xf655977b28009ccdull,
0xf6627332c06ef151ull,
0xf6630f9321b20b17ull,
0xf665ef77209f50e5ull,
0xf6689e3409f1260dull,
0xf66a1b0cdc0a2422ull,
0xf66a7bd28ba597f8ull,
0xf66d52ff62251911ull,
0xf67631da10489f65ull,
0xf68251580690d5fcull,
0xf6835122f4c8d150ull,
0xf687b5fa864483cfull,
0xf6909e3e55eebc57ull,
0xf69546a631937639ull,
0xf69e63068d045c05ull,
0xf69f268bf106d7fcull,
0xf6a774f3be2808dbull,
0xf6ac37dfa12d7e67ull,
0xf6b49eab4cd21678ull,
0xf6b8b0c205ded9cdull,
0xf6b8d7a74ace7de9ull,
0xf6be9c2366a63918ull,
0xf6c03f0314379b75ull,
0xf6c6aea79b5726dfull,
0xf6cac398d2979461ull,
0xf6ceb02f0edac5f0ull,
0xf6e27f210d168757ull,
0xf6ee0a6858a05800ull,
0xf6ffa4c9565c4d1bull,
0xf70f9104e2f9b816ull,
0xf71257d0c4b4983full,
0xf71738de4bace139ull,
0xf71cbc1d6e105802ull,
0xf7286e70dabe4762ull,
0xf72e76af5990e775ull,
0xf733e49c96fc476dull,
0xf7386a772e70fe78ull,
0xf73d767637981aedull,
0xf7482b22b6469d58ull,
0xf74af58eafd0befcull,
0xf74f3e29028bdb72ull,
0xf753512f1d17680aull,
0xf75698f3f29fc2f2ull,
0xf75a94800d2c030aull,
0xf75b5b94b1470763ull,
0xf75c9d2493dc90a1ull,
0xf765f7b147460aafull,
0xf7705eb14b64030aull,
0xf775c69defc6430bull,
0xf775fc96a3f1e35dull,
0xf77b58fea57d7a5bull,
0xf7803df5c02cce5cull,
0xf7831e63ea5c11bfull,
0xf78475306c3a8903ull,
0xf786e1269fd3764bull,
0xf78cba1beba8659full,
0xf798971e76edd44cull,
0xf79b4dfd9353825eull,
0xf79d78f39f0a8490ull,
0xf7a4d4d959621e9eull,
0xf7ae0b4b61ba9717ull,
0xf7b2e304f85767daull,
0xf7bd5768a030f082ull,
0xf7c6df8215ef8571ull,
0xf7d1ed8f34d6a08cull,
0xf7d2292356ccc667ull,
0xf7d4d054a0babd7bull,
0xf7dea2cfe935d462ull,
0xf7e18fd91fb66feeull,
0xf7e3e34620ec2714ull,
0xf7e97238d91e606aull,
0xf7eb265063b373caull,
0xf7ed068468b3a79dull,
0xf7ed1d18b0ffd15aull,
0xf7f05aba4005e073ull,
0xf7f518e4db5a56d9ull,
0xf7fea79f142bd957ull,
0xf801b29308817eb9ull,
0xf8054bbf34f8e908ull,
0xf808c84364e554d7ull,
0xf80e2f6058214765ull,
0xf81180ef98cb836bull,
0xf816183f2e0d596bull,
0xf81de29265a17610ull,
0xf820804c511852e3ull,
0xf8219e145a357802ull,
0xf824074413837a18ull,
0xf824e1deed06ec66ull,
0xf8267cf064ac3807ull,
0xf827c4c865acc8c4ull,
0xf82b527ed9fa89eeull,
0xf830107e4f31b362ull,
0xf83dcf7a8c0a835cull,
0xf84586cadecef799ull,
0xf84cb01edaf85939ull,
0xf85aa71ddb49701full,
0xf8624d97d6d9bf45ull,
0xf862657530ba4c9full,
0xf8683e3a6722a0e2ull,
0xf86d41618831ca5eull,
0xf8754cb6effb14d6ull,
0xf87894d7a5124544ull,
0xf8804780347900fbull,
0xf886a21e5a20492aull,
0xf886a7e0112d5ea7ull,
0xf88daa94cf5d6767ull,
0xf88e91c5e68b62b5ull,
0xf89416fd86fc3159ull,
0xf894a61ab2cdddedull,
0xf89cb0455f944525ull,
0xf8a4b195fae9e4a8ull,
0xf8a8811a66b4f0aaull,
0xf8a9e0890de7d544ull,
0xf8b6a2293d68362dull,
0xf8b89034522f98d2ull,
0xf8b96f19740c6e8full,
0xf8bc3eb39571cb17ull,
0xf8bc7b139650f54cull,
0xf8c0d3b35ae5f4c4ull,
0xf8c8b1e9be4fa475ull,
0xf8dda2a61de2af84ull,
0xf8e338cd0197a2f4ull,
0xf8e5ca408886349bull,
0xf8e81720cebcc6a6ull,
0xf8e86d44e9d4d8fcull,
0xf8e9091b50954156ull,
0xf8e9b935e70ee5c7ull,
0xf8f26acb4928035dull,
0xf8f63bfe2180213full,
0xf8f8ab301025610full,
0xf9011e5029763a7full,
0xf902e91a8ab7557dull,
0xf90b48abbc994e09ull,
0xf90c85720a283f80ull,
0xf91015870c61c5c0ull,
0xf916ae464406c3f6ull,
0xf9196e8b5b7030dbull,
0xf91bf975ef68b7feull,
0xf920afa8dd0c0495ull,
0xf92454610d2efb27ull,
0xf92c9e7e8364e554ull,
0xf92d137518768544ull,
0xf931f8ec81fd25beull,
0xf93e7797c1776e3cull,
0xf941f37dabe41058ull,
0xf95313449a8db0ffull,
0xf958a13bca96bc60ull,
0xf959dba6358da217ull,
0xf966488155da2139ull,
0xf96690b1f66bfce7ull,
0xf96afa16cbfcf7acull,
0xf9747c222956cbb6ull,
0xf97756a7cdbcf46aull,
0xf977b8df6fb4c1d0ull,
0xf98ea3f25edf44a7ull,
0xf9904b04ba543f27ull,
0xf99229f7a9741b78ull,
0xf995b9c02231857dull,
0xf9961aa883a8d5eaull,
0xf99783bf2f008dc4ull,
0xf9988989da2d92fcull,
0xf9994ff4c3c964e6ull,
0xf99dc43ac55b6baaull,
0xf9a55ec2a7353322ull,
0xf9b1bf1c7ec8567full,
0xf9b91f26024f6873ull,
0xf9bde819cbd89987ull,
0xf9c08019552d7ed6ull,
0xf9c6382dce8b1146ull,
0xf9d03b602108e977ull,
0xf9da61f8349f8eb8ull,
0xf9dac8ec9d9d7503ull,
0xf9e2a47a244c4cddull,
0xf9e32453d2270e14ull,
0xf9e32fca79811af9ull,
0xf9e7ef878c4fcf0bull,
0xf9e8573f5b27e75bull,
0xf9f0a49f7d38babbull,
0xf9f0da3239429dd3ull,
0xf9f78d9c2647dfdfull,
0xf9fb77e803533efaull,
0xfa006befbdb5938eull,
0xfa0223530c0ade87ull,
0xfa056080be48064cull,
0xfa06f99094c01a4aull,
0xfa073ca928cae7cbull,
0xfa096e6d99731d2full,
0xfa13d460d2a92c7bull,
0xfa1eca39d0db95beull,
0xfa20f910a06ca216ull,
0xfa23f93b76089d38ull,
0xfa24a933702a42baull,
0xfa28659ef2fb8801ull,
0xfa29eef181c7a06full,
0xfa2ef1bfbda8700dull,
0xfa33b6baff39870bull,
0xfa3693eaf3d14658ull,
0xfa384968c61aeb59ull,
0xfa3a9fdeaa0c0ce4ull,
0xfa3b53f2e91c7b65ull,
0xfa3f36aca4534052ull,
0xfa404b465f5bd33aull,
0xfa4193594e363c44ull,
0xfa4326f297fdfae0ull,
0xfa4a9cea374ed2f2ull,
0xfa5a2711632507e7ull,
0xfa5d2c00a45bbaf5ull,
0xfa68c203efba6b8full,
0xfa6bcccdbbcb35e3ull,
0xfa71d558389daa35ull,
0xfa7d6048b1a77ad4ull,
0xfa7ee0d61c68d786ull,
0xfa82de22db551822ull,
0xfa914cc451708cedull,
0xfa977198e6a4fcdeull,
0xfa97c29e7b828dccull,
0xfa9a5d24600fa01aull,
0xfa9acfd0e7f5e67aull,
0xfa9e2160ba532011ull,
0xfaa6ec2e40824368ull,
0xfaabc9b36f3121a3ull,
0xfaabe2354d136c3eull,
0xfaadfad98c5193b8ull,
0xfab2325e899b32c2ull,
0xfabc08268f3f1423ull,
0xfabcfe90f5511f24ull,
0xfac6b9683dff1eaeull,
0xfaccc0d11e3455ceull,
0xface17bdf9a5121dull,
0xfacf6191a9596c25ull,
0xfad58793835ed41eull,
0xfad857d1347ed9a8ull,
0xfadc4eedf272b5a9ull,
0xfadc844ba9af967bull,
0xfadded7f0b369663ull,
0xfae1e964bd93c8a5ull,
0xfaeac789d169623eull,
0xfaeaf1f9ea474d14ull,
0xfaed654725909951ull,
0xfaef131d17c46f42ull,
0xfaefa95b51dcad49ull,
0xfaf313d80dc14d35ull,
0xfaf891807c0f0431ull,
0xfb05f3fb3a84128cull,
0xfb1970093edb2a08ull,
0xfb1a5d66dcdd5037ull,
0xfb1adb7ebf453534ull,
0xfb278312ebfa9cedull,
0xfb305290a1043e08ull,
0xfb314969bbc6e301ull,
0xfb31e9f2d31b6ed0ull,
0xfb3d15fdd4250d6bull,
0xfb3d56524ab9bd52ull,
0xfb3fe4730e7eb010ull,
0xfb419e57127259dcull,
0xfb43c23aee4e4c23ull,
0xfb45fd69c12be7c2ull,
0xfb4e98a430a2c738ull,
0xfb50a4be80dacc38ull,
0xfb520a5d39b7eaf3ull,
0xfb593e934d48326dull,
0xfb5c20db41d54cbdull,
0xfb606dece13b991full,
0xfb630d391f025ebfull,
0xfb68d7237f2184cdull,
0xfb728785c61a5028ull,
0xfb816af63898fa8eull,
0xfb89b54a1c66f9a9ull,
0xfb8ac13fce8a17e1ull,
0xfb8fedd0c472dc6aull,
0xfb96d3c1bb4c5725ull,
0xfb9c1a173fad015dull,
0xfba80d3574b1caf9ull,
0xfba95202a4e4463dull,
0xfbb16ad45bf33577ull,
0xfbb7cba512a63d19ull,
0xfbb8b56112854cdbull,
0xfbba157211fec7a6ull,
0xfbbec2a70e49bc88ull,
0xfbcc08427561e7ddull,
0xfbcf1738a6710cc0ull,
0xfbd3f4bcb31bcbd9ull,
0xfbd44adcbe6ba8f0ull,
0xfbd87ce315d18c68ull,
0xfbdc26e44fe7a8c3ull,
0xfbe392d22101e458ull,
0xfbe4e407ac02d7eaull,
0xfbe54f7c5aa62378ull,
0xfbe678c345cf18e0ull,
0xfbf8f71702bf7baeull,
0xfc025a22900a4d32ull,
0xfc06c6efefadb8b9ull,
0xfc0fac776054315eull,
0xfc105c7050411394ull,
0xfc13408da8bd2b90ull,
0xfc19a3f1270656e4ull,
0xfc19b815b9704040ull,
0xfc1a4fbee3534792ull,
0xfc1e7868e68e5bc5ull,
0xfc21ce8f774d2cdbull,
0xfc2359502b066067ull,
0xfc2c9899253639b3ull,
0xfc2e3e73c7eb7359ull,
0xfc367a2ba867110aull,
0xfc37b570336d2cd6ull,
0xfc396af8e58c6db3ull,
0xfc440b6519cd3bb7ull,
0xfc499a576d6b2288ull,
0xfc4a8c7be7912e3full,
0xfc4b6870e2ee93b8ull,
0xfc57d043e242b0eeull,
0xfc58308071e9c07eull,
0xfc58884024503895ull,
0xfc5892efdfaa04d8ull,
0xfc5f4a6f90ceae1aull,
0xfc730f0155f9274bull,
0xfc790f719f511966ull,
0xfc79dc960e100a56ull,
0xfc7b6c8922639ed1ull,
0xfc83f0728221ff6full,
0xfc85229906736a98ull,
0xfc91b1aa95b7503full,
0xfc93c7b6b7628017ull,
0xfc99843c55053bf4ull,
0xfc9c29fd52e346d1ull,
0xfc9e5923ff70ac0eull,
0xfc9e82b25da66e51ull,
0xfc9fd5a6c00fd6c1ull,
0xfca4b6be122f823bull,
0xfcad8a2c9971849full,
0xfcaf522898980e28ull,
0xfcb38fdbe2633283ull,
0xfcb4ab8df24ce223ull,
0xfcbe217ea1948469ull,
0xfcc3c9e10a61cf5dull,
0xfcc4ac8dc6789a21ull,
0xfcc7f26f17c5186eull,
0xfcca7d786843c382ull,
0xfccb2e9f75616dc2ull,
0xfcd2685399c2310full,
0xfcd780bdb42d746full,
0xfcdd9f70706a1816ull,
0xfce1767085578486ull,
0xfce318f52d4851d0ull,
0xfce360fa6a1b2386ull,
0xfceca3f48502bcc8ull,
0xfcf0c7fb92e4e2a5ull,
0xfcf6fa7b3af41f00ull,
0xfcf722cf51da15adull,
0xfcfaa9bf17583f79ull,
0xfcffc90b5bd78b66ull,
0xfd021ae7e98f5522ull,
0xfd024688a47009f3ull,
0xfd037e37994ac3d1ull,
0xfd03ce308a237320ull,
0xfd0bda26fded780dull,
0xfd1485adb7404a9dull,
0xfd164cda8045fa1cull,
0xfd176ef1c1b05092ull,
0xfd17817360812c9aull,
0xfd1bb30c2b140405ull,
0xfd1bf35b60eef064ull,
0xfd1e6fff450adbb7ull,
0xfd1f5c2fad514b4aull,
0xfd2cac7d9000591aull,
0xfd2f47715be5f45bull,
0xfd394ace8dbdc393ull,
0xfd3dece351d9e427ull,
0xfd3f0757a3a582d9ull,
0xfd423a0571cd51f4ull,
0xfd433a26f6e365a8ull,
0xfd43cc30498f0ebaull,
0xfd48e5eb5f2d61ccull,
0xfd587eced184b897ull,
0xfd5a043b053d8023ull,
0xfd69da8ac50ba9d2ull,
0xfd6ee1718de604b5ull,
0xfd72653d2e2c2a2eull,
0xfd729f291bcc20a2ull,
0xfd72dabcc28080b4ull,
0xfd811584093c71dbull,
0xfd8516c5906c3475ull,
0xfd869e551eb11daaull,
0xfd8e1d0764afd1f7ull,
0xfd8ed368888cc5b3ull,
0xfd9bb157c61a5125ull,
0xfd9df38109980170ull,
0xfd9e774ce765e366ull,
0xfda0579560fedfd2ull,
0xfda0f7a762348241ull,
0xfda24631eb53a4adull,
0xfdb0d9b15764c86full,
0xfdc77b9c65e00b38ull,
0xfdc87c5e155536c6ull,
0xfdcd89bb874afd14ull,
0xfdd28ab0950ea79full,
0xfdd7cabb19fbca03ull,
0xfddb03f69b218f34ull,
0xfde308b06e080f3bull,
0xfdeb2b65291c3a1dull,
0xfdef60cd69699aeaull,
0xfdf5d19acfdb96e8ull,
0xfdffc6bb5899ea1aull,
0xfe0bd79ef48ed479ull,
0xfe0ca2bdff88e397ull,
0xfe0d6766d0731077ull,
0xfe1338ef32410087ull,
0xfe1ae2f80d69bba0ull,
0xfe1fd9d44cdd86f3ull,
0xfe236cd9ad31002dull,
0xfe240b4ea3ddb116ull,
0xfe24c12cf006eee2ull,
0xfe27e6ec134a7501ull,
0xfe3e2a1aa902a2f3ull,
0xfe3e73fd81d319d4ull,
0xfe4524a1f50c195cull,
0xfe455b298619f150ull,
0xfe457501296f23e2ull,
0xfe45dcb106c780d2ull,
0xfe4ffd4e44164491ull,
0xfe5a5c665e56971eull,
0xfe646be642b8df77ull,
0xfe647ebaddc085cbull,
0xfe6575c25dabde63ull,
0xfe6be11638531ae9ull,
0xfe6dd4192c960ab2ull,
0xfe70e7d4cc19a6d5ull,
0xfe73bb626b057004ull,
0xfe743899a596b5f5ull,
0xfe7cb2aa0b652383ull,
0xfe7ceb24285ae8e1ull,
0xfe7e5c06f7a77d4cull,
0xfe85777df5f040ddull,
0xfe8748405f7cafdbull,
0xfe8cd705f9b41c65ull,
0xfe8d401f3b028e0aull,
0xfe8d4d35be51490dull,
0xfe917269289c01efull,
0xfe942b1fc2c01107ull,
0xfea24dd59dccdb9cull,
0xfea605e40a850690ull,
0xfea97023e4078d6dull,
0xfeab6d4a39d0ad6full,
0xfeac60c9221f819bull,
0xfec9b10727a92cbcull,
0xfeca4f371c921522ull,
0xfece7c9aacfc2dbaull,
0xfed0c58924c0fcc0ull,
0xfed483c5ac892d5bull,
0xfed6c4cb129e142eull,
0xfedb4d854e85eaa4ull,
0xfee2d7bce00b7c0dull,
0xfee33e497888bddaull,
0xfee37bbb0e87e399ull,
0xfee4948cd878bb45ull,
0xfeed7c0edaf0513cull,
0xfef71f9c9b7419ceull,
0xfef8bc0b1ff15d52ull,
0xfef9aa87a2c1b6f5ull,
0xfefcf08f1345cfdfull,
0xfefd22f0acb1863cull,
0xfefd990132869ac8ull,
0xfefe15a62caeaa38ull,
0xfeff57a7841b3652ull,
0xff0080a7abb8059eull,
0xff08951e8cda76e1ull,
0xff0bc2267146a868ull,
0xff0cc24d561ef408ull,
0xff0ee85c5f1d5ad0ull,
0xff152fddd1818e27ull,
0xff1e017324b7ea8cull,
0xff23413ec43dc909ull,
0xff255fa70013d902ull,
0xff279cba811c2039ull,
0xff2eb5327cfd8ccfull,
0xff33cf15f8356ecaull,
0xff375cc9b20564cbull,
0xff38d816fcaec25dull,
0xff3ffc3962ed08bdull,
0xff439730a2506001ull,
0xff43a8d590588469ull,
0xff4efa10d037aa77ull,
0xff55acd18b355a93ull,
0xff57e39975935aefull,
0xff5ac2a1cb6c5759ull,
0xff5b107e037b8131ull,
0xff5e4b5702cc75fbull,
0xff65c98f6f515350ull,
0xff68428590f3a0d0ull,
0xff74ab1d1e7c855full,
0xff7ddeed2782ac68ull,
0xff853a42979a9aacull,
0xff85cc0fb58cf050ull,
0xff91a874bf373417ull,
0xff97c00bf2ada4b9ull,
0xff9b5476c6c5a7e2ull,
0xff9ee7c33a8bd6ceull,
0xffa4d98407af860eull,
0xffa5c52907b4f6e8ull,
0xffac7f64642b6cf5ull,
0xffae9a1a8b45a7f3ull,
0xffb1afe5fed22a61ull,
0xffb7f44f798c5999ull,
0xffb99312a6272cbcull,
0xffc135a77c175fccull,
0xffc63875bb3b4f7eull,
0xffc6432a81c53f69ull,
0xffc6a1bfa5c1e4f6ull,
0xffc6df9a129d0d25ull,
0xffc6ed1ddd35cf4cull,
0xffcde5400237d93full,
0xffd053c9273740cfull,
0xffd201539bb36ab3ull,
0xffd252a11c7dd6eaull,
0xffd66af6c7045d05ull,
0xffd94281fb57d71bull,
0xffd9b78fab4cc641ull,
0xffda57dc6ea35678ull,
0xffdb638b29ffb243ull,
0xffdbdab2a08da3d7ull,
0xffdd9cb86e0c7119ull,
0xffe5b09e2627059dull,
0xffe6309aecd8d1adull,
0xffecb7bf6612836eull,
0xffed2d08da3d5d71ull,
0xfff0028eb9aeb417ull,
0xfff67dff259d4df6ull,
0xfff7bb945e26bbfbull,
0xfffa1cd261a20d7aull,
0xfffc46667f83ae66ull,
