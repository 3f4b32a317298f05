// Made by tools/gen_long.py. Reference midstates: 16 hashes, then 12 HMACs
#pragma once
static const char *const LONG_TABLE[28][5] = {
    {"448fe0cf69366a0838aec0c57e28b9b50000fe1f00000000",
     "90aa81df1489ddb3117d7e062fd545350000fe3f00000000",
     "45e1992439e78f110923b3918fdd341e0000fe7f00000000",
     "8f199a283face57267e35b45933651490000febf00000000",
     "50791b86e78f6c39fb4f838db7e729420000feff00000000",
     },
    {"ee89fd41bfb94b4a096b64d8953d85444e4faa080000fe1f00000000",
     "253f7ad565e35730a9759e8bf95c41d2ec2575e80000fe3f00000000",
     "06722ea6046d6b8dedd171096a6795c23008fcfa0000fe7f00000000",
     "8c0a62c0ff97f67122fc96ee226bbdc54a9915200000febf00000000",
     "da7a63cce05102dbb1a8256aac9422a9d5dc459c0000feff00000000",
     },
    {"ff9ac5bf6db146445641d7718ec6e0abc98fbdc981dcba5ab3de50a5812ec6f30000fe1f00000000",
     "dd6dc24fcc0895c8bb0bca05cdebb8cf154c761a830c2a56c8f625a0d92c03f90000fe3f00000000",
     "68e72b79a986b1ed3180c5e7851f64a2c3fc310f0e6571de53dcb73b4b350ae50000fe7f00000000",
     "acf6b4b0dcd50cf37da15cfaa2c62deac990bf5b3c90c0b5cd125a95e02d0ce80000febf00000000",
     "c67820b813b1b45dd4443981b04606c25aee69291c717caed38d45263dd6a34a0000feff00000000",
     },
    {"2ab17982e8780af2e23ae692d7ddf0eb1d76ed7366b48ee118419b17bb25c8550000fe1f00000000",
     "d016e9b5056103af0e7b8d6f75c3e7cb511a059d485dc02f578d1ab3e03d83360000fe3f00000000",
     "d2a619efe00ad4cb6dc32263055b132be0f083f06900e045118aba72c3dde2aa0000fe7f00000000",
     "e47abf9ec9a99941a8b769bf5c2ff216f0322f72692fd5e6b8c47f9f6b7f52760000febf00000000",
     "db36406653321bca0b5ae6bbc55e9b071331b2a879dce71d0ad00b5a1afa8a470000feff00000000",
     },
    {"01e54f51909664524e03439db28c70c4f4d2382a46b2c5e8b5cebf8f64519b51d65dce54b6e16f783e40c652136125539fb1a35b975ede966acd695c64d1c62e0000fe1f00000000",
     "7a01ad63e47cc48f73eb1da03f04d14ad69ba291887f223fd41afa6cacecff0989d9230e58018dc315ca89629ac34885738d53dc48a19169b5afcdb81380ce5d0000fe3f00000000",
     "fe5fddf07161d77ea44bb95ba39676cfcaca55f220e4f6412e0ddf28fc4941f57bc6610b4b88c9851645cd694e0b9ef371fda778a12f71e0e570dcac50b382f10000fe7f00000000",
     "4668b30743db75a4268a9a2aa0137b1ab057e3c5bd3fc5f87c78ce5763ceff6fbee5754c66cebb2e7f02ad0fc3d9077a70d285288d3221b5d2d120c6a19127c70000febf00000000",
     "539139f98c9f1de99b80d69b36eda31969a49b4895fe28cccd80bcd92a2ba02cae26cf2bcba9f554220c97760bc32eba5d941790ae589b9a5cf6d07a1a97990d0000feff00000000",
     },
    {"4a52104a6a8e4247bfbe919960692c2f3d0bea223158641e2066ea06a7bc0c6e7c77c8a00202c2dc570ce9f895cb7f300e859f8ac9963f813cadb8a8bc2168e50000fe1f00000000",
     "3344b85541b0a16666d5c51ee07c4a93a8bfba93e0e6d29a1111eeb58c78b93a3619b7bb86bbb4022193eef32ef9c98dfd9b9659ef916bb4f91dff5cdf3351090000fe3f00000000",
     "d196903a2a31797e2ab3bcf7f8d5a552470c6eeb49be3a6b60ec8e7cc0319cb464821d622f083bd2cb224505439fa7806cb78e5384867f2d54018e93ec0372050000fe7f00000000",
     "c80d80607c595faf80c23451d2a5a1bdf232878fb88e60f0452e30d4fd154eabeab2f9752dc2849d804f0e8c54a43408d7095cd0a85c3ea1e93c3c3e3fd145920000febf00000000",
     "003c96a88c8582e0c3b88dec093f808b56e30b780842d56f7a8e0f43396356fe253211a4520213039ef9b35e39ab16500cf898cd44ac87f46fb863973b3a6eda0000feff00000000",
     },
    {"280a6817d0249aff9b8092097b5179b356ef622308db0bc464abeddcf535d04b0aa4563bbafa72f44745e3867869bebb583f0790dd32cb9c68cdc8d3a04ac2140000fe1f00000000",
     "1f4dee1d7fcfbeb3cf32338b8df90583c5d09bc936a362d523f99c19881eebe607a680784ed6339a8b0db22c1d0df32acda37d3d9980b05efd017a4d201ee2450000fe3f00000000",
     "fc2acd12903d276e8b0f773aa329e5be455eb66ed290e78d0dc162a79ffd0441793ac81578f71892c16779b1acc6c6638b549c305830be2973383cd4ae098ad50000fe7f00000000",
     "616752e9932bcaebd57e60e66eb0928be138a77d381d6c7be53265314c94c29dba6c126dfc3dbef19ac6966ea88ee9efcb94ef9536586549d2472b4874ec69a40000febf00000000",
     "d50df735696418529100c0d9a32ad84a5c0156b941550bb274698daa1a8da5759a50708642e36803dcbb43be8ffb3d55f53b650893fc1a7206b6901e94ff99e70000feff00000000",
     },
    {"f16b162c0a596ee0087f9952daeaa7d858c1ef43a8abb15a71bfc0d1f13ce3bf9a750f865ee16ef9a86a07f98b034ad50d5eb604860d4eb11c84049825d456cc0000fe1f00000000",
     "23f400cad34c7195b4ab1889e4f43d77ce23e3205483c242b39e433bac7ccce5a97b4e2c978a5e6c6366a28a773c4a0a988d6068959d409d13943539b3d7a0b40000fe3f00000000",
     "e3174d12fe5185b754103bbdb37e41e55c9712003b892b2c9cb19fd776dbb3c599177ca750e409a04e470bd013a7ae359918d1c1700445ff56541b485a3f1db20000fe7f00000000",
     "abc644704d655c6dbf960192e26cae7d180abe4fd2e976c9d92efdd8ba614ad7f2e2c2b2920ca62519dcb78d2b0d4e3286660dea5ce76b4ae263de7ab1dc4c670000febf00000000",
     "2db0ec9ae4f7a9f5c43351a9749c173bab39915aa5f0660ecf7b073819af437d78c9aed45b94237da41b6e48d3a4ba2e7513041fa78defeb2136930e748dd9aa0000feff00000000",
     },
    {"746ad6e31f078eed15d53446656663cf556061eb7f4e84aec6305caac3aec027361b6cefad459554020365ef501c8b7318964e4c2cd5cfce0b7ec6657ba18164a2ac958d4608b85ba45b7eaadce66ac15f29821fdd351e432ebacf365d9fc23878cd28fe5d1f7d98846aa364f6edbe94a833eb3b5799066db9a93caee6e5da3e9a410d6eb0f0f535add38483849266c7fd214b4617edfdaa49c3993516226c44d11c52487c8fe83d26cc6913ebcd69b0f6137f6cf2476c30b86e824ef7b1a1e91ece0be9b90eb89a",
     "fe0e4c3322b40879da360fef42c7b9864148d43a612fa9640a9f48a64048c09d5dad5e286ea8fcb52f118d9890dc63517d934e1836dbffebe8cb570fd5527ad0a0fef577f77a636c7e34e2661eceafc7a8e3a95e5c16f6f59c1f539488d51d39b935d6220e6fb92a825f89a6be5990b5a4151fbcb1aa258bbff203cd41c20483f86dcec7de1501e5e4da0e804f7293fe91215178096ab1035e04bd57e1bb447c9122e158e24c248bf659771c0bdc3a322839f440c7bd357cdd8496a4be91c81346ce23808f478a69",
     "2a6c8e82a46762553cd48daade635d5b4abf3248c3d378e552329ac33cf3aded103ced97df26c26589e9fd440c19a9e1652686dc544f7027bcaca6424183ac3083d493e1cfb1df0f926f5d0fde22789fe2f2a26eb6f0e9915c408501356b557f8b1328744314c62ee4cf45837ebb36e409192f24cab06cce98766b9b0f9e42762f9ff4a5353da10e8ef9a8bf47e066e24f7022d9bd4c77dabfcf391d0734f5b84e138babe8fcbf11b3c54d21078779ff7e5f2bee841faafc266b6e9f6d601ed59b11dab257974c5c",
     "5f17bfe673e3a7d37664ace0972d8d699794d1e8b5c7501fd6bc0e463e1939b6277bd22887be29e5ead2a47378d080c8afd682597d02b42bda1197e3f6de9ecfba41b505fcad4de48ee1387ddd54b149334509de37e635575d27d1cb84fde91938fa58ce51251afb6c2e3ef54c148060acea0e5a9c8b5e32f837fb01621ef212a337befc84e144d1d79689ef3493f0879299f5ed6f81e3604445252af231ca780988265eeca86816079f5e6f74d85834892c38bb3cba49904badc83b40083e012fb77b5978df1f1a",
     "d217c55837d629e093bc806b26d2d1e87e6e3d31c1f04805daf6ef9b50e55832a02cb503dfbf545eaaf60efd76ba5190ea9a16d18bbe16a0380ceeb92821ddfc028ddfdc142b63045390d3d902b431c16d0751f455f39ab7b03e1fab4ab95955b59dda004067d36e57543f39d38cace7f4cc559fa45885b4dfd658d26aee5d644e4b627772a92f0ffcc6ee30219185782bc734a247dcbfd718f783d9693c7c660d6c014a04391e0343f298b453cfabb4f241aab12c538cbc2f8c6220575adc82792058f94df78574",
     },
    {"3e1c440ae7805628a9938f158b21633f342856d46349b2c9ad0dab7065e665a8c0d1ed39ff0f7daa72bdba719fc850e937a78d0f01160856b145ec2474fd14660c658e0e42f7b2ad7ff1bfb3412afd58aa753efcd3399e9fae125f8d43eb80d9f13c4f2b9801cc8e507715bcbb2b45931d1075e9ea3255818ad7dcbc54817b8fb7a821cd94647d885821292ba82817460a7b8e58f7e9b9643247e8b013dd3598b67a256923e4fd6e4d0362a5901bf8d5b225c0bcce3af133097eae9b1f81a77ff32198acc1646077",
     "033177d49de459f1ffe5b5041bf6500d2a597df46e460850a2ef1b35bc95f8592f26830be7ab9db4d21bc55bdb38d04e7b5d7aaab53fcd9099c4db04e79333eb9917be72352b71d7587c6d36e775f7f4102e7015195500e3975f87ee2274178405e82797d59553eb66ccc8a1e8814e5361e6e699fd36a60dc4c763396889887353969ef9a425477ec4acf172e3a96d3d74a328a8b0e0414a06812addcfdd8639db956e9bb8396f5479961dfeea10df581b8de3f8c35a21e59e96342b7e0b1e29b133bd6ac7322fac",
     "b302713e53843f7bdc0928e51c37d0f7787e888a2318a5028d825c1936b525c12222336cf6795198b37b46cd02b0141f333e4c36cfabf10e966a08db05c2956768595d5bcd928981e72a5b999ff931043db0ae1baef8f40e676d7f65b7e642f572198ec2168688c37014ad383ab987f7dc8f1cdce64c4863409c9e1b5553d4ba7cc94f890aacf0f5e3320a435093a7030a6ede2f011da6a76f25f30d3dd2f432f0494c25155d8f96e7114022b74c10b6e88952eb33259f94a3ad650353ddcd71e056c60c9b56ecc2",
     "3d1021b15d51e32915deca2af142464fbdaf104d33cd996b80e125773006d6c9961d2358f5a5ff45f16640e394c5e61aca530d57f03e2761d6c1ce2a3f37c41b5e2627a086cc3478107d6eb35fff1270a807173bb891ddc6157f9a0497f493999b3537e51e7a6b143f6a3b1d575d406201ebb070ed311d9c32afdccb8061f1d7da46f4013dd11d4fdca0541fce9aa7a327d337f200af9503557876b5db333f1191f01facf86614809db432b693fa9362ba9805aa7b76dbd3c78064aa1a344e79995cf9b705d49061",
     "166d3fd7565a10c4891747145252ea79a2b993c5beb636978a2e00fabd37ab13c94553c8dc25c67bfa5c62cfa410be5e3259e5a10654a84bf4d05a9dc5ba8cc28e7058d9fdec5536a425709c51139eabf8e2b78c546e95974562908871d599e418267121be2158da956ec4813ce5662dc8a4de45b3179cc6310a5f95ab04e8c3b07af94fe478a9048aa49f088bef0fb7a3a430bb451755ef754cf9e0daa438f65bce7bf5a4d8eedf45272ffd01b826e51783c2880cfe12579df9aa966ba55011016247fe7f6fa835",
     },
    {"b4d292d2081e8f7a2c4a1c3505b6cf940b587b46634309730ba30d1e87de0cf85315daa95fe6199b0a8c9545a170f7f4f8acbdabe7c06444558afab9c15c237724d7650a8d43107c28383ef5adbdfbeba2f461b2594a9e74a03856b62f866126c7d32005d58644fc3992d93ae7a988c5e2512edd2109f27f37e90076eb3b79d3f4d98f5fd5f737c3861338ac590578314efabeab214dd256efe997ac71e39d85327fec897dbf0fce089e6c0487e87ae1f9620a97084296d1b972c1b21a38d558c052086df2923b46",
     "c51ace8b4b98d1ffe95983e89852328e85bca50ba61133c96158357df9bbf968910b6da0e5b84427f5b603668fa969dbe4dcafa5292db93ec1274a53448d9f1af92b8c8b221fc3fd40d8facbe12fbae866bab3021fb1fd99605dd5a5b71a871eb4944d9c8e1904cb442bb9adfcc3c60e103b878a17ddfcd5fc3c200c49af5822029823ead1bb23c4e0b4e0b5a09d98ca9acad82718d36787665e57ae23748a13fcd1110ddc67d39197ed32c972b8a009074d35f517167b8f1687e6502d9b0e1dc9bc0e70e6f4cf92",
     "2f8a970402192d5ab201c8cce385b1c308de554c0ddb1b61df7aca55310abd2f2493c4b314032a92b8a67871b349dc8559a6b16b5379cb6722a9e33cfbc74b27463e937b05706bf0739d2c564ce4bc4b8f7cb3ed20baf95d4ccd6a59ceb2beaa4f6889de376e050d582aa6e578cf1c67ec90c31859a96cd13e1370b966b5612a0004c21e4e7c3cea20d44677d9f86ba87bea6e97ca11ed62b69e7ee2726905ec56d822928ad60052640dc231db712f27862c969d52ccc32daeff5de1191d4f5e5339e05901cb2f29",
     "53c58ded18243c6776d8d54b75a521efb8f6992850efbd0e757bff85caea6019110014901b76642499f1fb4b41af560cb62afc0e62933c299d85a7da5ca7f747564e5860dc6f43f1005af64a9fb3e6053d6fab85bb6e89667e2c480dd9938ebd7238189a9e36ccbeaf13dd5c3bbc9a7f5b90274a6a74cdae121e1aa276a4541ce9946fe8c67e22925ab1230518ff06e35df51b09d4431471c51cbb2e4450c5a2c1f28b18bf5cb078e76b6cd45340d097b64b7c60e7f15ae504a2e22f8747023155e6b2b3eecec867",
     "868ffe10cda1174691cfaade19b77eb9fef8a34079cb2a1d48818d1431480f7a484e22ccadcc61375ff9cab3e5707719a27d630b1e43d38719231103ed78435cb15187abe996eecb212935038a33bb58b6d05e5ad5efc662600afe6a6d3574849d5946581674edcd03a44e814ef91100ba0befc129d5be912c85a57cebc754a796b9f44e3518d14f3ac89d61cd2219937731da5fd5bc93cf1980508a34152e9b38211876f77edef3d4ccd243ebd3ef42faccf291c31374236432862a6044161c1e86c129c9ebc709",
     },
    {"eb13c6c52d684ea2a860fbdf159299fe23e4083b44db81bb10370dd2ce3e6d76749d25055667c203acfeb8e88dfbdeee8b3301a6bdb3e278acacd2e0ac636090aa4038d5eb2429d48cded48b71009cc040e93b227a26425ff4ed7714b1ea92ac34b8b6146a7c8cbf46bfccb001ab11e475e7e95aec08015275001b0d38758673d850a1f5ec94e5c377719ac8e7f923be3d17af6045aa83a9c423ab1f709e0df0064c9689cd4bf6e67ee034198134a7cb8b9aacafac10462fed8508aca2c800ea387ef0870d6c3e2f",
     "093ea2e53f47d04c5790733e3cbb406f2111987c048f9e5d3d8af7c534f60af8be1afd71cfdf65b9bba871ee2e61d8c505a13f5decfb9d321f5ebab8a318eb3af7c8989970792d0a028a8ff0d06f3271b20339bf0b3a08db4d6582287d8e827977e9c7808c048d512d82002b8d4a53e2dd1607145f365248d4566ac65158b770ab40956dcd3b0ba4fba7a1958e04409e23cf63cb8bc7479c9a7193b5a737bb116ceec136b0652c94ba52f575a4f0f78f9e572bfbca8d297c1560f6cd3f0bcbed3f287a7d1b117df0",
     "7df441c735830659b74829363d5dfac0d53f8b40eb0709e98d8bbbe5a8aacd1562d6cb9c310906c02d44623082cbd23753507bf6eb19f5837f819f0a84dcd546b20d7ee37fd53b3989411adc9cb485cea9d9aa78aa8b92a77e660aa950cc1628a73bc0520ec692314fbed59bc9a42befb5a7d24f9b413cfb12a57c144e0c43b7ac4d87a8720d4c6b2fe64ef7e0491dccf233d747319754cbaf9d75d25e51c08edb0a4f9ab698db69c6f908a51bfea5be007c25bb12cc3b69e26d1d741988edaeab22f454ffd93a99",
     "a3aab9e93e1955864315669512f0140274c03e75ae0fa42d008a85f5843f75f40f6ef1f7cedfa23d0fc1d22960258ed5b7c56287bc870a6fb5ec1b3ec5643b69ce445755c558671ba1ef041e7d56ff19d6276f4876cdebaa8061bf6557efbc4bbc6dde3a997540189e8c30b66f0b60484cbef0bf9cfcda97a166942876b52c68f85e98547e084f2eec0d69a80d9625c23ffe3060a497a91d84977ad89d4b6c749477db62676fdd3444ea641a9922b24664f4d9253dca89ec86b976095021033cc0b1dc12f4d1cc0f",
     "266a7b556edb1429cbc165e24462f7982237677ee297497e9ff5e6f562a6c5f1dd1cd9517495234971f6d528d17bdd2b352bd3168850aba5d11fedd980bf30684473a5b1603381487fe881fb84810f69f9a182e4a65a2c777394d4b1a4182d37f661a8cd3b0a41b81d9ea7842a961219ec59659ccf4a537d8fd4a3e6c13eccc6158324622b106e2189cf6912fedc8d5410810ea4a5bca1be8319259053ba43a0e3dbdb20fef0b7f17095e3304da9bb95e0640ac7f1d826337dbb7e18275c2dd319ce298687c6bbec",
     },
    {"d2b2bae86d6813e8e2d4b4cf101f245f4fe1f188b7db0f3f6bbad01729923720a67e59502be3ddbb0199e8e142624eea40c073b88c39fd94662ad8c073adc29598e4781a582ee578c33be8cf2c25c1d4b9d6e20f587ef63acad4f9c1969c7bd52983d6da8dfbeef9946aae858bb61b0bda685d14afc71ca0202ae1f2379ef50db19b63f12a3abadd23cab74cf696adc1edde6e8e1f98cf434f4e90d05b3489e20accb5d852937394c1fa3068f503f80f8aac77c73d4da6ff8f0e4b377291ed55dbc73d72da09a625",
     "7411a6ff4a86f76589c5a5183be6a8c1140b200cedac5fcbd191af1e512da70d7d147f809b291374d20f1c91a7ccead397c3aa5bc6a895be85bffd5f47c21ecb2be55039d3496876ed82884c37956d16b634ab422670eecb784b97ad53465a97d8d395a93bc4ed987dfc070a07ba19b38e7c1fcb356197fa321bce352ffd3c06ec9ba01562d1887ba04f1e12c5608259d44529f6b5ee1ff41b0c4a85552add7c92514158433b564827eb0527a4a3a083534876c2277ad0ff445b9789389855c146a682604a3543a4",
     "fc3755081d194b7bebd779184bccb11c29ff7a59fce73419ce0f3740a16abfdfb03fddb862620417da97f8d30e759a78c3e82fde330b45997c5008f56a0c7da1f066d4ce46de06eebb6bce9d36a0f2880fb39f2a3d06ff42a5bc4135d12d0f4590b65440efada32488c9e33829fe3c7143aa85c340da1daa58a425bc7d1762ecf582018023588fc9c5e986c63f39eb85ba41e7eae9d8e42c64a22d0b33cd8b0bede82e7cd8611803e38ecc89b841a72b0d92579f4d4a0fb7b5dec421963f428e49a0c67b24218aa0",
     "2f0699e1981b9f071059622460f862ad8f76d5df749fe8521a163942b03f757aace991cdabc0b2ba1a097f4a096d58d9726389cd294f0650e8babafc339836059135054bcc95d630a616ff941459b36de13e5159a6b9de1324fbae2ff4dba50d9c2dddcfc13697fbcc8ebca3a77b58f5c14861d45af85dc15cf04001ffa83aaa09071adc7df9ce5654ea35a7c224b672fc3de9beada5934584d3498722765b647a08608e596a7721de26a9078bcb7af256b3193a220eaa1565f12c528b25d5eb0c99fb0628a4c3b8",
     "237fe36d0232e9fe87c180c2a3825907bbca8466ed3be257380ecc3ccab89fb8bde4b8bb7229f9776f1aa0ba0337ff887c5f48ea169bff0a71c689e1d32135c1b1fc95b5c1267b6dcbe9aca84dc932954bd136d35ad6466a0d34aba382844464e806f47f5d3bcfd40c07bb4a023a52c8b75061d5fb08d3811e6a7b9ba6612137b2c67e440ef20c2d4f53cc13d5022d0f55ab3bdf2b4f7cdda443d49c70f4717034a99fd18a6237df8beae874a8fd1c4284f10047c60ab32e4f851104accfa740f97c0beb3a832442",
     },
    {"d2b2bae86d6813e8e2d4b4cf101f245f4fe1f188b7db0f3f6bbad01729923720a67e59502be3ddbb0199e8e142624eea40c073b88c39fd94662ad8c073adc29598e4781a582ee578c33be8cf2c25c1d4b9d6e20f587ef63acad4f9c1969c7bd52983d6da8dfbeef9946aae858bb61b0bda685d14afc71ca0202ae1f2379ef50db19b63f12a3abadd23cab74cf696adc1edde6e8e1f98cf434f4e90d05b3489e20accb5d852937394c1fa3068f503f80f8aac77c73d4da6ff8f0e4b377291ed55dbc73d72da09a625",
     "7411a6ff4a86f76589c5a5183be6a8c1140b200cedac5fcbd191af1e512da70d7d147f809b291374d20f1c91a7ccead397c3aa5bc6a895be85bffd5f47c21ecb2be55039d3496876ed82884c37956d16b634ab422670eecb784b97ad53465a97d8d395a93bc4ed987dfc070a07ba19b38e7c1fcb356197fa321bce352ffd3c06ec9ba01562d1887ba04f1e12c5608259d44529f6b5ee1ff41b0c4a85552add7c92514158433b564827eb0527a4a3a083534876c2277ad0ff445b9789389855c146a682604a3543a4",
     "fc3755081d194b7bebd779184bccb11c29ff7a59fce73419ce0f3740a16abfdfb03fddb862620417da97f8d30e759a78c3e82fde330b45997c5008f56a0c7da1f066d4ce46de06eebb6bce9d36a0f2880fb39f2a3d06ff42a5bc4135d12d0f4590b65440efada32488c9e33829fe3c7143aa85c340da1daa58a425bc7d1762ecf582018023588fc9c5e986c63f39eb85ba41e7eae9d8e42c64a22d0b33cd8b0bede82e7cd8611803e38ecc89b841a72b0d92579f4d4a0fb7b5dec421963f428e49a0c67b24218aa0",
     "2f0699e1981b9f071059622460f862ad8f76d5df749fe8521a163942b03f757aace991cdabc0b2ba1a097f4a096d58d9726389cd294f0650e8babafc339836059135054bcc95d630a616ff941459b36de13e5159a6b9de1324fbae2ff4dba50d9c2dddcfc13697fbcc8ebca3a77b58f5c14861d45af85dc15cf04001ffa83aaa09071adc7df9ce5654ea35a7c224b672fc3de9beada5934584d3498722765b647a08608e596a7721de26a9078bcb7af256b3193a220eaa1565f12c528b25d5eb0c99fb0628a4c3b8",
     "237fe36d0232e9fe87c180c2a3825907bbca8466ed3be257380ecc3ccab89fb8bde4b8bb7229f9776f1aa0ba0337ff887c5f48ea169bff0a71c689e1d32135c1b1fc95b5c1267b6dcbe9aca84dc932954bd136d35ad6466a0d34aba382844464e806f47f5d3bcfd40c07bb4a023a52c8b75061d5fb08d3811e6a7b9ba6612137b2c67e440ef20c2d4f53cc13d5022d0f55ab3bdf2b4f7cdda443d49c70f4717034a99fd18a6237df8beae874a8fd1c4284f10047c60ab32e4f851104accfa740f97c0beb3a832442",
     },
    {"3e1c440ae7805628a9938f158b21633f342856d46349b2c9ad0dab7065e665a8c0d1ed39ff0f7daa72bdba719fc850e937a78d0f01160856b145ec2474fd14660c658e0e42f7b2ad7ff1bfb3412afd58aa753efcd3399e9fae125f8d43eb80d9f13c4f2b9801cc8e507715bcbb2b45931d1075e9ea3255818ad7dcbc54817b8fb7a821cd94647d885821292ba82817460a7b8e58f7e9b9643247e8b013dd3598b67a256923e4fd6e4d0362a5901bf8d5b225c0bcce3af133097eae9b1f81a77ff32198acc1646077",
     "033177d49de459f1ffe5b5041bf6500d2a597df46e460850a2ef1b35bc95f8592f26830be7ab9db4d21bc55bdb38d04e7b5d7aaab53fcd9099c4db04e79333eb9917be72352b71d7587c6d36e775f7f4102e7015195500e3975f87ee2274178405e82797d59553eb66ccc8a1e8814e5361e6e699fd36a60dc4c763396889887353969ef9a425477ec4acf172e3a96d3d74a328a8b0e0414a06812addcfdd8639db956e9bb8396f5479961dfeea10df581b8de3f8c35a21e59e96342b7e0b1e29b133bd6ac7322fac",
     "b302713e53843f7bdc0928e51c37d0f7787e888a2318a5028d825c1936b525c12222336cf6795198b37b46cd02b0141f333e4c36cfabf10e966a08db05c2956768595d5bcd928981e72a5b999ff931043db0ae1baef8f40e676d7f65b7e642f572198ec2168688c37014ad383ab987f7dc8f1cdce64c4863409c9e1b5553d4ba7cc94f890aacf0f5e3320a435093a7030a6ede2f011da6a76f25f30d3dd2f432f0494c25155d8f96e7114022b74c10b6e88952eb33259f94a3ad650353ddcd71e056c60c9b56ecc2",
     "3d1021b15d51e32915deca2af142464fbdaf104d33cd996b80e125773006d6c9961d2358f5a5ff45f16640e394c5e61aca530d57f03e2761d6c1ce2a3f37c41b5e2627a086cc3478107d6eb35fff1270a807173bb891ddc6157f9a0497f493999b3537e51e7a6b143f6a3b1d575d406201ebb070ed311d9c32afdccb8061f1d7da46f4013dd11d4fdca0541fce9aa7a327d337f200af9503557876b5db333f1191f01facf86614809db432b693fa9362ba9805aa7b76dbd3c78064aa1a344e79995cf9b705d49061",
     "166d3fd7565a10c4891747145252ea79a2b993c5beb636978a2e00fabd37ab13c94553c8dc25c67bfa5c62cfa410be5e3259e5a10654a84bf4d05a9dc5ba8cc28e7058d9fdec5536a425709c51139eabf8e2b78c546e95974562908871d599e418267121be2158da956ec4813ce5662dc8a4de45b3179cc6310a5f95ab04e8c3b07af94fe478a9048aa49f088bef0fb7a3a430bb451755ef754cf9e0daa438f65bce7bf5a4d8eedf45272ffd01b826e51783c2880cfe12579df9aa966ba55011016247fe7f6fa835",
     },
    {"3e1c440ae7805628a9938f158b21633f342856d46349b2c9ad0dab7065e665a8c0d1ed39ff0f7daa72bdba719fc850e937a78d0f01160856b145ec2474fd14660c658e0e42f7b2ad7ff1bfb3412afd58aa753efcd3399e9fae125f8d43eb80d9f13c4f2b9801cc8e507715bcbb2b45931d1075e9ea3255818ad7dcbc54817b8fb7a821cd94647d885821292ba82817460a7b8e58f7e9b9643247e8b013dd3598b67a256923e4fd6e4d0362a5901bf8d5b225c0bcce3af133097eae9b1f81a77ff32198acc1646077",
     "033177d49de459f1ffe5b5041bf6500d2a597df46e460850a2ef1b35bc95f8592f26830be7ab9db4d21bc55bdb38d04e7b5d7aaab53fcd9099c4db04e79333eb9917be72352b71d7587c6d36e775f7f4102e7015195500e3975f87ee2274178405e82797d59553eb66ccc8a1e8814e5361e6e699fd36a60dc4c763396889887353969ef9a425477ec4acf172e3a96d3d74a328a8b0e0414a06812addcfdd8639db956e9bb8396f5479961dfeea10df581b8de3f8c35a21e59e96342b7e0b1e29b133bd6ac7322fac",
     "b302713e53843f7bdc0928e51c37d0f7787e888a2318a5028d825c1936b525c12222336cf6795198b37b46cd02b0141f333e4c36cfabf10e966a08db05c2956768595d5bcd928981e72a5b999ff931043db0ae1baef8f40e676d7f65b7e642f572198ec2168688c37014ad383ab987f7dc8f1cdce64c4863409c9e1b5553d4ba7cc94f890aacf0f5e3320a435093a7030a6ede2f011da6a76f25f30d3dd2f432f0494c25155d8f96e7114022b74c10b6e88952eb33259f94a3ad650353ddcd71e056c60c9b56ecc2",
     "3d1021b15d51e32915deca2af142464fbdaf104d33cd996b80e125773006d6c9961d2358f5a5ff45f16640e394c5e61aca530d57f03e2761d6c1ce2a3f37c41b5e2627a086cc3478107d6eb35fff1270a807173bb891ddc6157f9a0497f493999b3537e51e7a6b143f6a3b1d575d406201ebb070ed311d9c32afdccb8061f1d7da46f4013dd11d4fdca0541fce9aa7a327d337f200af9503557876b5db333f1191f01facf86614809db432b693fa9362ba9805aa7b76dbd3c78064aa1a344e79995cf9b705d49061",
     "166d3fd7565a10c4891747145252ea79a2b993c5beb636978a2e00fabd37ab13c94553c8dc25c67bfa5c62cfa410be5e3259e5a10654a84bf4d05a9dc5ba8cc28e7058d9fdec5536a425709c51139eabf8e2b78c546e95974562908871d599e418267121be2158da956ec4813ce5662dc8a4de45b3179cc6310a5f95ab04e8c3b07af94fe478a9048aa49f088bef0fb7a3a430bb451755ef754cf9e0daa438f65bce7bf5a4d8eedf45272ffd01b826e51783c2880cfe12579df9aa966ba55011016247fe7f6fa835",
     },
    {"67d936fe8f99a0cb3b65bf6189ce43fe4000fe1f00000000",
     "b24d5b5b1aee104cfbc3cf4ec6ad95454000fe3f00000000",
     "39a58880e5a6532605eddbcf4005f2874000fe7f00000000",
     "46e5bcdb3ed2171cb62216ecea22acad4000febf00000000",
     "8139c801f7ce9f3d8df8ce821726b30f4000feff00000000",
     },
    {"6faca3007ba3dff71a2e568ffc1fa50c13618ca74000fe1f00000000",
     "485ed0bfd6a1fc6b688337a38744bed7058e96284000fe3f00000000",
     "b029ebf8819c43eb420d77162b553723a05d0ac34000fe7f00000000",
     "0114d814d59497ce1f01ecab90037edd3c13d16d4000febf00000000",
     "0e41327c06dfaa95e94e4130e4c16858d1b57cbe4000feff00000000",
     },
    {"706cbb00624f5ed3c1981c3d6d1a23a06acf781b9cdda5d095fb5169037bb7174000fe1f00000000",
     "0255e1dfb75c93ce9b2c18d99d5514bf4aaf54868bf92f2865bf6d677f03c2744000fe3f00000000",
     "3531e55499a714098f8b5f2d8f82b36be452106058187c062355a59b170ab74d4000fe7f00000000",
     "fafacdc3f65a15028024ce413306442826d053a3bd6e8012cecab635f79682c94000febf00000000",
     "7622aa28a38d81fb8e48eb5883645d2260d464b6b39b7ac81f8cfc9a6158f4414000feff00000000",
     },
    {"683804f68822382beec114ed78aea8ccb74bcca8cfa2b145c31728d810f5b8c74000fe1f00000000",
     "8778d3aaaf1429633cce5c3edd3ce90f3a8fc5be8dd9f863a8455a75893266814000fe3f00000000",
     "48bfd9dd311b8b54ccdd49cbfd2c8fbeb3bc5f23b1809a87261747050e17fb084000fe7f00000000",
     "c7bba79b07090f404a065f0360e5801c9329c58414d19e422a0052443d4eb2d04000febf00000000",
     "2d20cc22932df2de5f1fa99f803a3445257d4dc02c152c33efc7404956190f674000feff00000000",
     },
    {"105f36f32ce68edc1b120cd51127c8889f8d664ae3bfcc48f302cef8103a58d520b69bed1a752357fad51ff400bd068d34caa6e5e8a5c4239bff10559417078c8000fe1f00000000",
     "65561b47149b17237679a4645d172a0b831c811e2e1b8e9cbc169d69b4f2ed9890516f934c5a46d4e627cec21b04f3f4359ad4a971b62755387d263be708eb4e8000fe3f00000000",
     "1716f8b53958a50f8679ade379c604bfd86796a4cd57bca63d34dffda9d5c9fb99f951caa9a9ef2a791eede119b569b5b4c8006d9cbfab5620ae1e712e54cee28000fe7f00000000",
     "21077ad8c2dbe22f2c250a54b022bcffc7a688bd83f53ca65cb8f0a8986f1c73bb631783e560b479dc48440ce138c838bb4a4ed8b3b7ee4d1db5eff34e69f2b48000febf00000000",
     "1cf9dbb6b2537365ccdcdb712133458240dc772bf58529439acf57a33d67be163fac68be90deb9a5a07ac42b6bc506ecf384e45b1823ac550cf071daf33881c28000feff00000000",
     },
    {"e08c0597fe9ffb3098a23a77769350eb8cc8da1fc7dd7aa09fab5fe9bbed678ad6091ec307cd9f53194796d3fc603c5af8eb6a0825fe21237af09491fd97f5988000fe1f00000000",
     "63336befc5fc61ac46809cf64f42d6409429a3af319eaece677d0dab532f9cb741b74aebd0f3af34681af468c508d32f161e7c56fcf939d743f2c0d5ce2f17288000fe3f00000000",
     "04ff85990d5b411330b4bb108cd6b51c97dd1e5bf5c14ad5ff731990b1ab38421ba878dd8c2bc8b47b00df56566c0ad8d8cf24ace07f092c2601a5174a143be68000fe7f00000000",
     "48effd785508a5d10d79bbb9e55d48df6168e312b972f1e21201f92d671f27df34e8acc4d7fff1662a6aec874496f014911dca1ac42c7cef60c33132fa2179898000febf00000000",
     "0e86ac948a160fbd3a436c621cbbd7a667e9b49bf7689d74599e47d2c172801482925352ed2a3311b06bc7079d552a774f00b9390feb85a617691688fd57a1c08000feff00000000",
     },
    {"50c9774d6782afe46a219813e28472167ac3a0d1f52e3091a6eba6783b9dd859c4b47851b0077cd9849dbe66dc463b017870fb7a0930505610fe3db5544ea9508000fe1f00000000",
     "410ad2d9cff37ad6c3c0732bf0da2a53790255f8299823cafb6cf2d1d6a1c08fc9b5200b9d67803bba86fa16b103b2568aeab4b6da03aa34c48ee23a9324d32b8000fe3f00000000",
     "2e617a5925e0e54dd9d2b58de959435609515c0e0b8ce0ac5c82dc95e4b1dd35e03b20b394523ce714020065660ea6d4200db326b4d23631386c432c087dd0a18000fe7f00000000",
     "122b08675d8eb7eec2098441831a2e9cb290ddba3d5a8c37d199de4bf6fe179573badc8d6d0d686cd1e78186a90adfd3d4d54423fbb57285e657a544996ca0bd8000febf00000000",
     "efd666561054b3a7cc35ea4c42a3c876f94c206c3486f301fafec03746d8719633ae820a67668666eee17bae226475f29785c6ecc9676d332dc45c6453bfd8728000feff00000000",
     },
    {"a000b9e49976cc5dba6042f350b63fcb7f57becc6001bbf8bf3d3fb06a84efe7b471da66bf93e9c06ed9864e7a4e07cb4511570fc5e416abb269c732ba4c69e98000fe1f00000000",
     "ce949852239ecfaa3ebbc8c63ad89d23452224397f9b9f0bcad45939cdf2fd37b45295bf6f0fc8534bba1d99c70faa2ff011742db1006c8a8ed72937ae81625d8000fe3f00000000",
     "4447a8d65d08dd4359efe8e99f26fb2b55a3bac7e5f2d672da475d558c4b95970447d829196eeaf3ba3b71330365fa807e8383c85f62a4cd17cc813dfc7de69f8000fe7f00000000",
     "e60e166ce2bf77d623477960787aec90bf219eed89d96ea0e7e567a8b6780ae3486eecaca6f45cb3365420b1921efaa688244a2825a4b4613898562a8c890fde8000febf00000000",
     "58b0a0a22b27b2da4bc522531fc782dba8bbe5f80ac16b45d34ff1c798dae316468edbdb54768f94702031deaea4c9e5698da39d7e7fe3a38af0933ea161a2c68000feff00000000",
     },
    {"7f27d32f09de2d962c0468ade84fdde5943c00001a8c802e6f75fa123eff02a2f7733bc570aa39d64028b3ad1b751526a915b22bf185011d69dd221a941b3f898b34f0262e7e0cbefc053a45896c899ad2bc04596f57a534ca1a2b938dc32e18841a85f7f8ab74df3da6760eb8c23eeeeaccc1a3baa48c2e7cf60f9ca4c3943740cebc17d8a8e64f8429595d7b8165f24dc8fcb8ba776af2ad91029650416e86a0ab2adb49fb97cc6c5578e557da45cca3aeee60383ad078633d9edb32bd992703dcd48c9bf1367d",
     "f364d9e5506f498e94d115be26c82ec30eafde154b0c7dd4d897a9d3178136a1b3c543f92eeb214b8fcdd3a8af5ffe911e14f009814f2015d995b01c1f37d8d08028d2d78c42e4ef2d62e9b9ba6db3b7cc6e12b23a2d7d67fec6ef8e2d9b7af8b46d843e08c2ee70f7a391751c8052c859ba4e71a5837eca9025d55bfc1515c6d35f81262bec63703400e389d6e7d9b923dbd7280fdfafd9b1e886453a87fc37ad919e267fa456d593458db428c08a1920c7d8a5965924994d3e75b864844004dfcf766a362c3d20",
     "d9031fabefa0333d725946b1f1cb823df49a40e91320e7e5b8f946f1bee2804352b275633487cf87d62f258d02456c1f1518cdee3e7c122f0bce98c68ddf8dbdd03244fd02d62347dd2b7e9c1e9817cce5fb99c66f81a0bb122a88d5668cf50e698b0bf5962ae7b65dc50bc2c6ffa5ed7535b6c88dd8c5e3963a0c1b0d8461d80b785c25839826291fc29a4c8e91c6fff5b4c3291f38ac20ce77262f693ff7812acd51edb76c05c94a1507b22d9f587b038d5e9e1f37398f38548f36aed1638f61c327d0df5e6b71",
     "1cfc0c08688a0d675b3d58f9eed2dd022a3c25579cbadfd6909a9cf8e5213905dfca9e537ed503b63ea89a3fe5e40cdcf56ca53ab3d46f53dd3c9334d0743d31a8c53147d0cabce464272979fab3ebd1562c065bd9858a7a2d9209d8d447301d86fbd22fd127173b80e5514c82817d4819cdee84ff043d0d74edaf82238a2de963af4c205b6c6d1d37fa9c7f2822a01b62965f9cfc5ea6d2f9f76302bbac2aec5c8b6f7137270e429294c0f431a0519f619fe405dbe7fd2d63c42a742884e85455709d55f0d290bd",
     "e737e3c6d0c97549b208cd9206963399a7c0c8042e837b382c782ba2b305fa0b812ab849507ba58359ff7d80c050325fc5703728eccab75fa8620140d3dee5acdc89d4541b6e96aab37eb69bdae01d99d9cd6c0dea3994d5d960b5cb118b2369992289e52f8f25fd6ffc3b3fcf068173b5e76c9d314997104f6f1c42a13027d091bbca0f6ac41dbac2c7b02b7cb46b12efb7c2b19277283f9521577017df56fbe1e12d5bea3eca1f497dacb1258810ab972d41610e76beadb0589e5c84f6690d5440ac3a83e9d87e",
     },
    {"bd48f6fa6f7e4a2cb27905c0522669c32f393d64893e62356c8c6590bc2c246e6173a4f42543d33430c34b58512b4941542287911f49c66d826dcca771c2972f4b039988445abae12d5c0531ecd4368d861338e510b94cc140d4f55b01cffea146f89663655a2f1b4e797aa65757fd8ed0d92acfbf4e45dab4fc5a1ec5b5d48f9d11f81a48f1b2c44d92a712019f748edd6ded1af1191493594e769436028947cd4f67924e35378c155bad2984e18448e8398392e1ddf7995a5a5c95599efebaec0ba3144f9a8cf6",
     "e13862dd6b5a0d8491e86474cbdeb22c36c33b3dc6318d822195f1ff5e2f88c489e661108c8ed949b1cf120e151c902dc03603ecb2d4ac2e5968b96e551f40b52103cc3e682fa3daaf398f8826c9aeb81ede2407b0d79de8b5646be01bc64ab1595e8db581a8276610fc4088f349a675857ad6a9deb8f39542bd97984de44e4f56c36aad020b1fca2ba8f6a70e438621a0cc428de68fb1530332d28bd998fb6d5527d260b03b84c9cd3ba2d67ab064f339d09ecc81a4861826873ef693058180a554d4bbff562d83",
     "4cf1a5baeaf276e24f580ff7687031bf7a9486a3cb5e68e787ade141c71ffbf340df175cfac382537c323aab714a65c25b8f28f8aa2465ac2a795725071f203dc9625d3995d9b5e64003f814c550ade08a7d3019385d278389b4931c26f98b68792ac65e2f5062bb53238da3960b3af97eebb347cc9ec0910ad7b87821300bace59ea9d77e1294cb8d0294a4c05c0f656ba9a1238b26a8e831ef609eb2930a6590d1ae07e36cbf8f116403b4dbfd34326ba4da4819edfdc30344eaed75a49b7735a240ea994504de",
     "744a32ec779cd4a367b1adc173a5703cd29283d6ef766f903d49fed2b72a06450f52ac0a84a89f0e5a102d64e85ebaa9d411da4ad4e002eab4e241c9437b206a1f6420fafddf050790dc8fc6a141986de28a855db5158cab11beb5952e8b06a3d1254ae29b807886ad2d6afe3ae72e5786cc716bc9cae31f1b44ca62c64a86751c67169a8b85e379ff3c93b6d7117724357e2304f5c808cd30514612d6066af6693f771241f7c4d94a3607b45b5a9a3ad2cd2f4c7c4971f66616d5608bb435cac7ff3f8476f7ed53",
     "ea0836e7065083982a488c171d478cfdc1b277a48685852df687e35183b9c42b8c1155c5fee4863418cfa86524c1d51b0eb5f3fba049abe687d5ea27d708b454609adfacdaea75b54af1606f0bf6fab9fc87ac168b1de4a112b8cf240ede2ee3e58cf91068905af266222517cc77c711064aa0cc28df98b589ba7b1ff478e3dd62034fd8658505b455b35bde2b8bde9a740c404e4ce02870ff91a523c758a3d5fada4c6dbf245fd958b9d793b76ecd9435e6cf5ec9df98dab11ba4bea9c6d515dc9678d50f175922",
     },
    {"5259f8fc756c984f99792e41c58a97f89d8451f616434488be333fa06c940b26241f288c268181b323302985aa74b6e6bae4de0f458a3a06c7de78d973c379fb6c01433e378bfc757ebc9fee1c278ec8c83dbdb042c16cc44813b099cc47ee33ca5f8b212e5160bd723d4fe5632cfcc82ba4b5c25230df23baabc6b0821feacd0a5c14a6c9f7a4e04aa0557e9333e17221dc529dc0534a6b2f3fcb089d3ee581a72b7cbd77730550f42b1ad2a28340501e4b65a6bdcb898f9ea4e8a97bb6696f14be5a746080b003",
     "74181776d439a839cb02c999ed3818fde44fef7e1e15ee4a2b2e7d81d0d37fda023eef64957639a7b82ebfb19551d1f9353016aa2018395cdf2d4bcf866490cfb6dc3c6e100b435fb871f460892c244c9be46678bc21312de5bc99835432da46fc8e6502d97683742a481ac31e65f3c0627f53fb8c48505c4990f19700d9eb34e24fda7674c931f7bfc6e9ed1aeedc8985458924edbeef8a3e0cfe732a102a89955367b7870bbcc2ae5c5cc7495ac72e235f623a2e413c42a12ffbb8758e8740912949b2a77d579e",
     "ea678c344aaf2c138955d2db8c8ebec9c253c730ded9d446a0e3e89ce76cea23de7472a969687afbb68faa7ca41449d03f9dda8c7c86ae655d02c2c948ae6f016735aadd6ee11a9b01ebd0bf8dd0f4d61aa63e77836abf42f0d71a9eabe015864e9526c164c7995f5ca5deafb40c8321c5ccc84d03c9b4316046d7485febb75f3d423eef6c33e26a74b3cea57c3ae33e21687c8a86e18ef0a9e54388e9deaad57b95dcf7648f7eae1082b8d08c77302ef3a3651b613bb5187e6a94666b1384a8efeacaa9788fa90f",
     "fdfc60c759fb3710657fe168dcc8f47225dc152353759a187f5b277dc1d24e9f8f785908d5cb8fb1ad9a7bb08a1cb1f595127506f2c53127cd89bfe393168620f718f5b4175ff08df4558580889b75b9cb0fd0e030628760834bb61b9259b124b26679e64763f7067615ca856b181f0cd0f175200f757357641ab32827e6ec7a360ae89dbf3b0fe5f19de1b8d8a1408a0451b747b38c939674d0ed97817b530b4c826c5de56835a076a884f626c751dbef38eac3b15a029b11ea08219c5237ded8172e31aba4ccc5",
     "33fa8d4694beee2150ddef49294192f8b1a541617efe4ddd1c164e85d249e4ba04cad01768d6618bcdfd905bbcf731217d286a979994a03ba246424f28cc30214ac7b0dc3309dd22d9c420f6a55d8d170978437881c0894aa213773887b86bfdc0e6ef7b6428a250d272c08df3581f52bc7e4760600f80253a0f79434570fdaaac9837259949df8870e60a3609408f53abe440ae55cbb373f519152c16e4209742915dd6e6081522c0c55ac23ac5655fb9e9bb8159d2ba6d3f1e7217d7bb358b365c37be71dc647a",
     },
    {"f224b3ab49db92404bcbaea460c3bf2cb5e6648e1abdd2fed5b7f0213f71357ecb7c79c31a63877fe78c4ca686790720afb9ede6594c218b85afeae65d9f56f91459ecbc2e8f4586783c836349ce6e730f60fc36a09c0bdd686c240bd9e7cf7859080ffe15eccab80abaf19a7ca19855224a4899d4f0b7c050627d5603605b5e68f8f94764480462c7d3a15ff2e1befa9760a7b8ac37d956451fadac2f4849696abb0ee04fd64c77c95457dbe52fdcdf9e7b8a417feff87c7d5abb93211e84879cdf6527cc84862c",
     "0d0376c4aece50e2c3648e2d88b5574b435e8463afb3135864d578db369b78904bf86265f2ec19baf4194a81837edd1d78f3aa50dad213bc6b09e844eb9c5ef157a94c7e143eccf9da4bcad006b27fe73ba8595f400b244a20e02e2ee0f684bd4f09901ba44a04cc9247319c4a60be2eb383ef0287bf094e61e17affea196aea6885393c7b10cdb299c06dc77faf952d6520be83139d62b0fba1aeaf0d2d6a28d3e4266c54e0d1c49f9344c70e8b5c16c6286e7f0d7ba1862958452f3b25b686b099d41e55783f1c",
     "642770c576e2528705055ab00ed1fe7648f8e48baaa08e7f9bab34948362f452627454ce66b74aa7705cb14a304a35546f8321706e731a5840fc528481827aededc742c7c8a8710e69da98c417a9d85b6e81934add23d74441d10d5a273b5de1f8518aa9af7b3ca1e2f742bc764b58e0ecbd1644887a21e2ae1b680e72df7864fb799febe372c754e111d2540ef17ab424cb0edf23c07944eb7b1bd5a6e354f84419c28e996efb1a9cb4ca57f43e5279ccae5d4357db92d74ee6618c3b9a4d3a7218d200b00b2097",
     "82f63934bbacbc5e72e82814f18ffb7371a06a77b74c6752e67447cadfd20a45d5ca8fcbaf30e00b3c8fb0a4012d9913ecf56163027fc0f22c72dc86a03dff45c09adb205ee86be228f9a00ed5229a9c4d59f3ba9448198234b73b05e18de10735b58ddbde9d7d0b14cd6589751b44b7730ec163934dcc5d889fb880794a2eb170af49b809fe6ef6fdf9682bd12cddd9e326530f568d8948b5df7f5bb5637195e607cc4878b502bf1566431c5903371d316055f1ab6631f99dd8800c918993a7ab70e25c66c68bd0",
     "ec5c26d9ad072e53c10118eee8536ba40880449bd738777419cea35bd9264d9bb7795c19fa454fdb477939e6a4ab9a358f8e677feb70c7e8e08ab751ad7772aa99cd4f02ced8e2eb2598eda2350d667d551cdb6650ec29726208489c07efbee339e7e09ed5bfdff8d43c6b612400b5badf302c990efd6c67cff8364eea17e48ebb6050ac6f4b60e5a53a490720c1352e3bf594ab839b91fd2f4e56cc30f415c0646534983ba1680a758d3d09406aa2928c3903f724a89f1387fd821601a51b1fafab7cf5e9e83a81",
     },
};
