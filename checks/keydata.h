// Made by make_key (rsakeys.h); only saves the time of making them again.
#pragma once
struct StoredKey { size_t bits; int ekind; uint64_t id; const char *p, *q, *e; };
static const StoredKey stored_keys[] = {
{768,0,0,"c829010b6b0a6ba1a6706295f73b758115953b17fb89518dfcebd43bcd939f16e7c86e1550bbe1c8e2647e73074c7e37","f1792bdec92a40a12d9a70150be1c1099c5330a69c301233c7a29cd4d1680cc9069620000cdc571ce5b25f33536eef0b","10001"},
{768,0,1,"ebf961e1dc22e3900cb41d433caa571c84e17829f80d93ef69f582723b88cf039f0ed726f9e9311f03cebef63974d221","c62c80d009656c6712be57ec7b082541633de25cc966ca5522c40d5ad1274a9663880d9d0e3172bd6750cab4d5a329cd","10001"},
{768,0,2,"e1f9451d04c698e4cd574e69b035a23bf863582a53258f248a1a998d6b1dd7ebda47733d34958b4e68a2f7cc28e5edcb","fc06d0edd9c137eca5873af12b4fa0ec9dffa09e547908189948950cf19d13330a0e9237042fe1da1001aad299576753","10001"},
{768,0,3,"d4322e5ad99509daf6f80bb8dd93aaf6728083dae50a60f00223892d2d11bb283733cdce8968ce4ad8ffb2af74c74a27","cac4b990e69b81631aec277f5f842734ce9f0cafffe0f7032614087a3a573c1f6afbf01036eaf3dde9aacaad9a6905dd","10001"},
{768,0,4,"fc4683091eb98528354c3a845809fcef289e609976298350b5cee21894308b6f88ce01b1abef4e39f13270bdf89e95e5","dc6649ae0584ce06b57eb9f59a9f9b9ce10402f265effff88cf109c092bcbe077cdc86ce039a3b5842e9595f675b3141","10001"},
{768,2,0,"df280d46246777369ef03f1b099dfdadb136a8ddf0a79b654346ccd704fa879810c764f1d2b694c770c97e21a85095f1","ce2c1bd098abe11f86a67f9fa39d36ebb1abaa6d54f2e3edbf8b6fa0b791351c1fa24e7caf0f8500525185d5255e2b5f","11"},
{768,2,1,"e875f93b6ed617d6041473e39f833085104954b5e002421f6e47b17f11530d29e63f68e11cdf36c815072db4642ad823","ca538175ddc6421aba0a1c0ecf26c2a5e589fcc01dc654f9cbbe8cabc4b84afb39b4c7ded9e55204e6e97d9fe2a94aff","11"},
{768,2,2,"ca5ce3fe15be1579d651d2867cd0d754e4109a9596cfc7d03c27899c90b7b8cf6e30032e6da6a55e9ebf881225f347d7","eb64481d034ae5ff42a30902ddee1b0856c246034157063346d5b4a81d224ff7e2b21c56190b7df6156c5e6dda7b58e1","11"},
{768,3,0,"ea8097b55242e11bd3ede644ddca03cde489995076495604f4860f9ae0d37c74f255a49e042539bbe6075f56f03cef4f","f0a2f24c434bd3b66962877a9b920cdb73a3e755425b5b48a649e978604055fee63ebd1667a36081d03a472eee10e99b","80005d39"},
{768,3,1,"e7d5d1c451c3e842402f9d3dba9d3a8f80b302fc9925147ce0d6d6bf9ad41834168d678ee6546a394618c12b33e9a06b","ed5d8f4ffb31cf65c8f8ef15c02e574ecfbc84cb2dda8ef1c6a368685016ca2bbb779750bae612e14655ba93526e15f3","800f9f69"},
{768,3,2,"dee60021631ce70e5d9e7394ef77bfb0baab32b28c79674a076f19f79f133e67ec8f510821f58ac2f5c3d3eed56376eb","d71ff7ff90be28f27683c56f07b9ded4068a56eb3fbdde5344352d9b15acbf2a89e664f4c7aefda66dec621921550c43","801ee1b9"},
{800,0,0,"da15e969c963a01b63c987d0171c19f08e3ef75f28dcef3d9397e03526129aaa8fde32c861cb43ea19848a56ef93aa2c02f3","f606d0460a1ee6106959df5425606be518aeaf2b36735e43b2e877033f16d783143e5c32f8b1e1ba9267ced0d3e878adb817","10001"},
{800,0,1,"c8c14cd0118ee56bd1154b11a6bf482b53ea3a3343540fd87b9f3dbb795dd24fdea82f73faf7ef6a233ab3c6a5fd60894f8d","eb919d8648fa37c90fce94cf5644ca353c72b4525b89450e74595158c98287fca86a89fb40d7aeffe039ba310b01ffd25089","10001"},
{800,0,2,"febc09a56d83c8ecbb0c69d2371375f739149f50d76e554bc77348142f24e6fd02e5d365e19655c69e32be9922fb80452e2f","ff89c42c90fa14aa3c2ada2e1360d7864b5882de818e39a5bdaeedd119cde0baae91395dc1e3d09ca529dc8685d1648fbcc7","10001"},
{800,0,3,"eb683a5b9584c8b04eb411f9e59cf8909f0f124524651b528925922a058399f41425f4bef733d6e770a61aadd3753a6ea56d","e16f0b5d90569361209f29e242b630df8e2042074e15666aa2b8b4b8e3b9012c47573a7796c4ddc4ceb75507eab087db779f","10001"},
{800,0,4,"e3249954da13dcf1584ad1e5db53cb8a02de3de12b2f462921360bab05c2d892166618e64ec28767b3b6dd22a2d17a7a9599","fcc1dcd05eee4a7e36d72e92c42fee42d24b976ae92f8d87100557f43720629c3b5208eb6d2d676922853e175dcf0c2f2333","10001"},
{800,2,0,"c92ff175caeddb554a0c28aeac055e2e20da766f8fbcbc53212b512e1569f54502fd84c4f1dd1efeac760c21059c9917b771","da8cd485cd80287a1acf962f75785aa903a1be07e001b90f219c880e34d6e06c050d4903dc6015fbea083ce898f78164f24b","11"},
{800,2,1,"ffddde6c7c97a38d97dde72a640da6dee5f4cc387c5df8b8f2c759f212671cc1bfe1fb5707b45f707f848655d6d9edb86323","e9cb49979a9a11661df37593b74ee67be5ff954dbaa7c890ca690f91495c4c8ead3ad7a38b6990bf6c601b733babdb1b9413","11"},
{800,2,2,"ceec6d526bde1267bd7da5c0b6c3bb7804ecce0e55d6f85183e1debb48ba5085845c5ef570728c9220b1c4d189217b0f5da1","cba8d2cea0711dcc221a32213ee1375da8d87fa97bdfaf8b58e7034afefe14f3c401108bd55ccb8b1ac1e12841ea24203d03","11"},
{800,3,0,"d779b31913d641ec2dbd89166837daf5d8e106146e50aa0f48e4681cb046b029456e73e70b03829f83d4060f99c1fa969a3b","e2724afc82cf9ad21729c200bd0f2749ce7ebf4c73e9de4f2a84ce6c3ea6bc5ee856101938feb50e9656735ad62a4822cc91","80006129"},
{800,3,1,"e72ab2dd784c1c8f7715ce3d02cbcd730f9eeb8d36a1767c8e5b9294fb6bb68c71c98be177bdb7ae0ea3eb2604d2abbdd0df","d1adbf5a7088979cc5387b3eee1a59e2afa8f4e8652a7c18f6c348eeda72a680f331db9634aed30d4068e00e2cfa4227164d","800fa32f"},
{800,3,2,"f5c0df35003941d6a8b132148bdda3c4816a932a44b482c29f89b5311f2e7e0274a4c5cd04252f01c454d738179c59f8fdab","e9de92aa4cb8474035286b40213e531ca77f0c81765c712ad308bd10f9f53cae5049bf75696b1ac41dfb4664441d4556ad8f","801ee57d"},
{1016,0,0,"dffb02fb03c5d180e253ddc461509f5ffc64b3c5ba7660d748197141c1fe30c834e75b0a2d8110880b9c8f99d65aaf8135b64f21333bb83410c7b538dac5e1b","fdad4bb9a2bb53ed1f81bb571a2191c6bdad4899eb78bcdaf53dbf0a1176bbbe79b80ef807f6dd6984a26f7ccaab8e6d65d310528f7baff02c3f2f8fd18059d","10001"},
{1016,0,1,"c16c272da4378c802a35869ba427588e97fbabf48dce142bd923e5414a057a8de6a72e766a96cb8470a206f02a2f4ad7201f850defafb926638d08d43d219fd","ea5de1d8910d705fd1d7b5cb52260545194fe06a7f875973bd498e285f5d2924db81788dcf6506a5f5fba8c5d836610388f73722542836db6cfd87d831899d9","10001"},
{1016,0,2,"c36fb0c39f40994cacbeb2f81503556ccddaed3f8ad3410cccc25302679e1049a49ab1118da0846ce0ce681260b0b6a44626ea03d6febd6562bd0a529de198d","c8de8a92931920d555f9ae1445670c0ccb9b0db075dbb8debde397a09100edd513f9e0266e66d4ccb8dc79cccafc09bc8362ad2ca7df3f6485b7326b32b50b9","10001"},
{1016,0,3,"db05d276b7533c70f4cca731c8be47e5dee2f5c6a3da267e7200f2ec32a65fdb19521a89a0fa90d8affc5f4efe34d7b95df97a76a1f310d4d6d6cc4d1a8544f","f83ecac9bdd82e79f24f08e2c05e4ad779edb0da50909947cdcc00d98d0fe9816160f80574e428a65b18a1aaa8c3224ec9b651650bb5ca9397501b6f22f0b3d","10001"},
{1016,0,4,"e1f9e8764180d210851e96ae16fedad78a040d2bcaa13addd9621d0e9c4c7a103814357316ecb980fc9de5c59c52e7a6025012946a97206e397edcd024a041b","e6d634fab78380028785fd551541d751e21ea90ddb23d77342193682ed7bf71eb32603f1e84b21ff544e7791337e618c715abda319c9aa4d2ab0041945480b7","10001"},
{1016,2,0,"f604831676a8451dd7607802928df1d9f7f30ab9c62c694e810dd14ff2762aea7cc994789f262a195344bec01988d289c0fa153d5a4dc003c47f90cbacd790b","fd8a01dd137d09f9b29c1c015cbae3b4a0863e17404873d4cbebdc1a26a2e324d734716bec1f7b2d15877ccb14f31cc4687ae0a763f28adc5c2d865a8ffeafb","11"},
{1016,2,1,"e5d04b9f10702f2c63b51ea3ea6a398483c51a3e534bee205b3bfad2bfe42c63322025b290999bfa606b0850640d367c5383c32a114ce4e0a74cb7227f52b61","f621b1fa8e0b6a2067772d05ddb825c236972fb8233734e185e9611c6532eafc23a2e6b42a67b933f0381460b68ce921ed1df8f9c6b7ed69988856b0fa846e1","11"},
{1016,2,2,"ffbf163b823e3b4c9b98fb0695096d615e4b1633c4db563c75246c59d8f03bf5245774f7a0dc5bf2a60b4a16ce6ffcbd27726131c3cea540c9db61ca4defb93","c8183a6d1a5be97a6284cf005e6d8d810f9cfdc41487027a12f5d4e1fae303822d74dd7d94e31d4abb816e9cab4e98bc1f6852752787268ba07e5ece1e8a635","11"},
{1016,3,0,"d8435bdfa137c3559dacf376616e6941d0a5f88b1340add39e652d234c8c3b521a0e34331eab4ef90de6296c5c53a59bba6b6b97df421f1c40711cb034ad0af","e87b41dd46a0b068e3a08fe093c00be84b96334224b7a6269e7a323f2bc6e59d8503fe4904b85fddaaedc795c0e9e6ce56203c884b94bf4db501973b2ae2db7","80007b29"},
{1016,3,1,"e425e7300a12f6b96c01252be719d7d8d2d21529c30200cea1437ea7fc1b75574b31d347105d18e0a8db7e41ba6fa7ba77a8490f049e4ec46559a7e127c5abf","da3115bdef82b876e395cd0578076edadbe8b3ea81f3dca601dd54ad4197a4bd6d4ff22b3e24ea9fc0cddd0aab62992d3583089d9e30d5014c0a3d4836bba41","800fbd51"},
{1016,3,2,"d2eae993cec03dc49293739da99f31e5f99f06a9ca39eb4a9989867a032b28a28187ddd5a82c40e245387277300e74c9f754467f4fdd3c5a6ebf419cc29f953","d3aaa6651dbf51fcf88202f97ec3a683b35b1027438009f579e80848a84088b618716f81785920c4468400d5f290a06a77c4a079bbd619e6e2e6ee9e03e14d9","801eff95"},
{1024,0,0,"e243b8ffdfe6d3711e3278ecfdabff5a465602d8a520bd27c0436333e68592d1c91592c6362ce224242e2c60e6e408a6852fe00b309b2d583671395dbc165293","f704446980e464f9e8589fa8df7e2770484480366708a2aa10ce17e83d3623a1c814b118781fd5209d5ed80ef9d64cb6709209ae895b2b9558bf094b9352595d","10001"},
{1024,0,1,"dbebc602b96fad17469a2750985e190dd9cc25d89bd5024ebff0edd2121aadbbaa39a2caf74e3a68ad3499fd1fd8abccef7442ee1332c87a3d40c4fc463084b7","fad34b1f09292d330b4e02161ca45c5c0c2b88bf5a3281e33f03012786f430aa9ec4f444d019e521f1f9c6eac45c3419a394a697ab7389ca55ea3dda8c18aa47","10001"},
{1024,0,2,"fd879299713099b9d1c2e53d0b08e235e1608738a9bbe4e5555646ddb9afcfe5383e383628766a86ff632e3919313bf0a94d82febe8a6c77a8ae72a73744cc21","d246e3766743fa41b21051560b28678ea91b11b3176de3373154920b858e63d63aad0ff429a871b1b0ac0a96b303c8f3764dce591ba6e07b9f25e0844398842f","10001"},
{1024,0,3,"e72a056d6d8bb6d6f909040e662fd0bfeec7d6d6c73eb622f009f42a61d5eb84099290c939f942a8ba8eec2dd54e79919c3f5fc06ebb7e129d2ff94607d40575","d8082854b632d3c68e0c08ddfccb62d3075bd70384d6eede08c59c65516bbb54efd498048e75383091c2ef2cd36866e23ace813ee90c3d6e79718762f2c267b1","10001"},
{1024,0,4,"caff45b4ded69561d7da380ea96b3fa6745ba075fcccc3b84436f8be365fae9a2612520911fd1f823537d2d0aede83e18c4b3b6e594c427e49681547750e43d3","cbea974ef736241cfda965d35043338b14780646c777bd1a54d00fabf1b091ef31805c64b66f132439e3026bd4fbc17c17a3947a7c3394a8cc8276f73355f96b","10001"},
{1024,2,0,"f57693b09cf151849cf0c13f4e0bec5e1ca565ecc8400eee49d5d143c2b2694c59d87404011e5b266925f7ccb0e8ee07a7e532b00810728a0326f084698d8a4b","ce1cf45d27300af1c9e47333d41ecdd648371ef8b279cf6545662263d8486f89051a16c6ff69ed34663a3eff3baa699bd0cb485b7e0a19258e5e55cdea7affcd","11"},
{1024,2,1,"c3b1324e386f940938d1fa5ccadc54f449afd0c42ae47312ad82b4fcf6000034f02bc90b3b9dc5a0e7b59310b87bbe2f73281c15bfa4389423577fe846fcdba7","d95d2cc73582cd9b455fc83ead2fd0bb0742f244f8c549aae912c686be9cf82c1264f1e5428d3a6cd991447b4bb8267c9a042a53ec08dde9c05082b46a36b399","11"},
{1024,2,2,"dc6dbe8fb693ffda417e92bb2b135695d3711d016eb456eff417d6c64ecc05cf48bcd13e18d3e05cbb1f4882f9cea20924d7f0ddfbbf3429b7a663dc72245637","f4a6b98984e0b1602894143343dd17db09bd60c9bd36508748941122c335056751db7d403cdf95de5f03eebf38ee7ca40d845d03c68bf41f004e7875b2a31897","11"},
{1024,3,0,"d1f0e2d4a5c2bec490dd51baf88f9682ae764339cfc5fe1da0b46207b4afa5dce059017b6f86dab115541b42ee2a457bd69df334417a5660118c1ac04785f387","ff5aecb595433f35b2dd80ab62f85fcdd17967ac53efb1a70244d05e534b87b474799ad46c0d21299e5382605a6551e5f09b6de8eb3578cccac78d827459f787","80007c41"},
{1024,3,1,"d8f86cc78bc17911be5ed81e5454b05e1cddb2e20f2bb2897a32bf95f64055ba68f009599379658a5272b5c2848ee0d4910a428318c38c2b6595b8a916cf66a7","ea259c0da3aa40e62eb79365448bb37de0efa918f5f27e701cad5399f7960813fb46de3c36f925eb625f1247fe0acefb7d515f9cab50439c4bb1cadc234a2f3f","800fbe4f"},
{1024,3,2,"ea708a4fc807f088f03952875d61ada7b0be1e83874a9029b83c0e57925ad2228619962470c575ef4699236805a755c98102ec824997c265345628c7dd81a219","c72ac6093a3bba70d9d8014594e2c2c83b031042e4afee241a42e2dce9ce5a6e545d6c47658c41f3f908dab77d6afb3adab0f9fc1f200df1e8f030816e8adc75","801f0095"},
{1032,0,0,"ff2e7dda0715029a04dbf29472df0741f8a29da8cde5885fa5e15a1343f7e0ada11553c3e879c8207d43a5e89542363cd25620c0645b279d702d695b9e042fd11","f65b452bd106b1468fb7f48b4f456d76ea427777577bcb875ff0392b75c8c43fb3eb223cc7fe721d5a7649359406b0537c73d53c7bcd9c01ae77904e3b5c8e797","10001"},
{1032,0,1,"ee807ee63e279ca70d6b4347638522a3a6dec68c6bb7f393da3457339c19ad074331d61b0e16ef1ac09dcd7ca07e9db5725aa7bcdbdbbc281519188ece4220c29","e6a0150b54d8c7feff28a2c816330c81b7d464437591d540bd153a83a6a79fb7b0bb3d694af2e87e6ecb2d2d337a09b4ee9eeea34bccec5292ea6780a12d2315f","10001"},
{1032,0,2,"c485fd344983715a436e0092ad1e74c8c2581de06504b54ca8db2ed7b756885094606f379e2409d9c8fa0c05ff8c140a2fa7c82b251dd15c23ddf1a8cf302001f","c3c017d4eaba78f13e376ad8b477de56c5f7450714a5d612f37eed834be3371451a9011c94fa7708505040e7ba154f3b08d49e52cd9f866f9bfb36cbf79dd8981","10001"},
{1032,0,3,"e87c309bff45aee9dec25b1921bbe6ec62a5b3330406a6070c5d2df33491f3ceb778a4027abb0b783e62a1753d8e20aee781cd912f84201bccad68ad89cfb403f","f1b2544272517b372c57d770fe5be2aff6df30c03dc3b53e8c339e397327df3339dd742950db07be5ef474eb2a95f1efaac7f264abf486b0bcda1403b699e1965","10001"},
{1032,0,4,"cff8e6f5f0103efce748eb75fe33b6c7c80df15575d8b82e7175ec125457542f3d4160cf3932d2c5b310eb41e46923a18bcc877a9d7168e57def0f4d49a3c422d","dc9996d145752398c3438aa7c7373b5a76c0bda49c964c991c0c743ecf8f47a5f8d052f81bb69e5363b66208a3216eab13d1851e2675a832291a4c1db28b58767","10001"},
{1032,2,0,"d45020ab10ce48eae3a98da5233fbf6846e1828db9ad05c06fea819e24bce483079ae3c5245ad56977d19d4e60bb01de72df4bdf23262cacd8af8a59087467b87","db5c5f7503a3888bed5dc0f5ce11cbd9078b4657f91ea86d664660283e97984325d53597978db6992a185a7fff0cf15ab2f28ac6d0252bca48688466e1af61f47","11"},
{1032,2,1,"ef6363d63e35557a4aaed0f83cb6ac1631591d7b3b48f52efee0b8dfaed19579645aa94e30481530a5178e39fe756471099a53792c86c46d863bee503a63a461f","dbe8c434996b4726f0f16ef1dfaac10cc1885ea3d751f6ddb3fed681c6e28bd7a17ab716cf61f0e25bf4d24c8136fece6f8dc42cd063aaeeddbf6f0b26fc2c1a3","11"},
{1032,2,2,"f99fed8b3ec36b2b6ce209fb5ddeb65e401470eb4ef2c62dacaf6899eef2986303b61efd249b7cda146e9d2394da7882c649c3147c31f007677b0a028162a0c13","fe8567007cd995e5f884173448c63477bdbcdd939b1e178106589b829bc20f26ae87ed36f6efe303fb1a136773d2258d7ab7d55b381102d943d8a20116adc0eeb","11"},
{1032,3,0,"fde91b9363371f9e58c70dfd61db5d7a6f5a7a644acb5d91c0f0016b5fb588c6cc86554b15733398698f358809ab4377a01885c5affae2474da502406b439b3b9","e224120822617cb855d0a442b7dfd5c0d36755ebaced2aee37dc1c05a69c1f75d0ea1c1584ad455329c2bd547cca7ae0691315310aaa2acaee82f79daf9f67d11","80007d01"},
{1032,3,1,"c23221e70ea0180a81b2c9afbd43440fa5b6cd56cdf3a62de45c8b82aab4f5ef8db441b7b7dcf2c708b063dd6c7147ffb5b3a09dceba2c9924f3c0f46e8a7b17b","d8c0294b42c2e7a7ec04ac71ab64267789fee52f457a27e69020bfc816910a457fcb0f3e9c96d7421852573a3f2eb89ed3c555345d4721530c9cbe96e0b5bd9eb","800fbf3f"},
{1032,3,2,"eb5014139582a6aaa2d0a769e79a4cc88802838a91e34054e6140599e2da602d30633bc24a8cf13fed1b60df4d8026998db03a233687c0b444b6903b646e03373","d3991fda929b52867dbd58d37f602761c444f9fd63e354b053c5f959727ebcb02878a17fe3bd58510719f8e6e36329816fdb7f10f449c676e162ce86f4d4b0881","801f019d"},
{1536,0,0,"d3827947ce7cdaf2de1ae274b2727b7ff308afa41f32adaf0c29637e9f0568133a19ec8d7d6aab6ada69900353863af87004dc232387b9918175af74cffe4af723afa56a72240b5c3ce39c9836cf200843b1ceddcfe439ab86ba97941030f587","ee4373736c7e2bffc97826f3f7d1750782f9e2076f45d8f579ba48e228f5a3a19891202423c855e2c5068c0be651f6673d4751c81051555265971c1e3654b3c217b4cb6de83f0929d6697b6e7d4935afc55aa3fdd8df2d049fdad4bc86ef18a1","10001"},
{1536,0,1,"d33144b5a54e5335d752ff43422f79da47e17e4de939c005e031fa9d72b70cfcfa32f4a7ac6a3c0bef4e8f9d55b78b29e356f4b28ef58ac53c08db35db4ca2b0d796b471ec067d987a4724db22d05ca4dab194c56f1309239db64693d64f5e6f","e244c5a0ac9dd061452d6704b2e2e89236e41c6b411ef6c2e859336033eb856c672c76e8ba8915f24430ee780d1af73b0b25d04eaf30f9418d57bf095002e69ec90bbb8307600ff63c56ab01526eedc135b555502c03b2bad25fccefd24a14db","10001"},
{1536,0,2,"da04b42fcdec2d69b61b4350b80f49a864f41a2948036f3389e4f41d54f0e94c46593f7fbc854e355e1053162875781e96397fef512b20950a0da0e10e54bc206e3aa3f8ad36b573aa34acb968fb9bc0943be341d98fe77eba9b1d1d18203351","c438db4a6d273766e94c363773991d8dbd0659684bc195215c2756fd6b9441c6bef455e8acb0a83142a67324b3def84f71268864e56c5c3673f0bebb61b01c4a518bedcb63407d9802290699a4de6bee3d7252096ae7fbd17caffc85a15dd6d9","10001"},
{1536,0,3,"fc3457ed9a9e9b112f6db75e0e365399e1846f2c25a405b2bcd2253d995b5da70fdf04328630a8ee12c4bb2400006e2ad5a6f2a9268a22fba66d55d929f5d4bf543701454cd942caf59ff8068a4f0566730f408704e85bfe27d6c46eb4f70851","d3a4faeab4a77008c466ce9d7ac585c91a6f97ad917b3ce2802f8c51d7cee5b2c3ba9bd776c2114335a33156e1bde93909e3902b0fc6e775640c38c412d096c72cfc7a3dd1b9d24b9605cc233382e318ffebfb36b82435086d4677791cf4b7ef","10001"},
{1536,0,4,"d1526e2ab25a151a536a3c15a90fb67baf9483f1624e9e6daee1e7f04c2eee8f34d4379e831826c7868fcbb5afee0801146a1ba4310440ab8490681652292a468dd9fd5269887d5f527f8ed6fe2ba0c339367ffafff4ed1cdab045bd7df71b07","f0a5d170e356aa7b8aad911e41a5d78ef42b5e57f8346fd4e20a7a68f5ebdf1d993b44fdf58d3bb40b9b995c7805fb284a4364ff67f54ea90f31455f603a748f4ca91cc2736ac23a22581b6d8131a3b367a568ecc6380f44459e66c81aa9e2ab","10001"},
{1536,2,0,"f17ef9b265e00385e879a44a4274f4e073ce94bd9f6558f2cd019d852270b26f9eed7cfaddb2e172af148043a5700a2508985d179ef859668e4539a9a3d11851aa852d853a43a84371d8641d9faaaa519c7a3ec9c7aea0db683819d5164adc05","c4d6814be540b0da132223d5644b5529832391eb0c6db536192cfeaa3b7530bd6a1cc249b64d4161e8ac9b3e334e6cf24e8c54a9431064151e2f2199195344cbc52ce89d7f908a012590245e2c9a30ad4af5c9256aa1f17fd5273aeb3d22aa37","11"},
{1536,2,1,"feb4571f68b9553963a9eee00fb7c38fd76b856a63309d838c7708455249f9ed9e021d6c4348c91e649f5ed27b7c25a4d148d917a6ba47d04af709ea4c366754c1f6ef56a65c7122293a53759f3a480def5ddd9a0cf35b5c3c298dd03cf7a91b","db9d69fd60f381f5fdb0ddf01d7ec9f097bf7cde49a0dc1e4f35614ec88cb8b84eabac5f9c17d820e743ce981e3a50d8ba409cf8a7410073b9e628d59ec139242111e4755ade193cd982803a5e953584a2ded771639e9a5f1eacf1cd2013b1ef","11"},
{1536,2,2,"ee9201d317d8b088c9d54638fb37012e3683a4466be1738ebf80fc79baeee375b02efd035c10f2f270d8b1c3aad1cea0fab00e36d599a18b4db3c311affdc2476102f2418c6220e847af5957a454dfe0ce30fcf77a6d1b8f3afb11ce57830cc7","de12aa934b1bd2fa1e6aba7b49fb9e5d76105064e34e60fe3ecdcdd17b9db68bc45dec582cd436822465d68916631ae25e34cf8738be16e796ce4bee90155bc687aefe7387d2ee7712c9970576896c7f23b7377f58874a098d1867e0342483d5","11"},
{1536,3,0,"e13d6b3ebce4e2d727332d3bc926d9bbfab05a2fa89eac384e123a6adba013341a3d08cf3312b32a2e3bfcee7f1f62c9e46e82df35d06fd376ecdb4ea4c4e5fb1284110357bc0a3ed22b8dd2f9f589676de033bb65d1a47040e6e3c3d59dc92f","c07e235e82084fcc085196fe7749ada2cd3128f51a7acea762ab972d9a855876a9dcf0c2757240ed351c2f54da305f07a9dc975631ec870c6b9a805e7e9a6924fa15b165687d7a8bb5e464b7c205431a2baeafa361667eece7c82182d3eebc51","8000ba0f"},
{1536,3,1,"e1ace6b70f981b7d422cdfce3e778d5ca0f1b916c2699ba38ec6592d462d7e6add42c382a0e0bc99f3f62c6c27bb47ca5b93ef3005a1238e0be0a5fb15727275e2bbb4b9f32063b8e28ab487f35348d702332d84f8de1f2b26b19f77e3f28d83","ea883b55f5a8c85c10eee06aa8d99b3c2916a90082755de31b0997f09a67117b2f75c0a0e564e23af1b0df64e4f06370dfb9fdfba1131ea80fb3ede972ee79941975f53b51edfea4789ec602fa33e3bf9bc0ac6a9e9b926d13bd4f60fbeeba7d","800ffc53"},
{1536,3,2,"c47888a3d9da8316ddf7a117343378c3f275b8035ae0287b0e4df4d81eb47e385262b617adc8bf3b9107ccad8567b4a193836284ef3a97c199062c4ef6d0779d09fd85e03e84e3fafe34c21d5c193ea0889af830b2f559e9f62bc06b0d87b02f","e1ece1ec6e3d1ae905fe4623bbdfb56c9e8a8aaaf479b7abedb20f653fa7705b19f806f635e7719275de9a28808833ada85a5431db1a052bc242452282d48fda4c8d6ab88e10bb5dc93fb3049b26184b6ebcbbe7bfc2d07846a60e8a24c2f753","801f3e93"},
{2048,0,0,"d39550be97e074252d8912a10a5c702d1b885fe771344615876c62b7b0a900aaf48894e9085317257598762f8054b211275490a430f5e6b3c4bf0dc435f38d2d913ad6be08a3673be83c838b4fb74ca091ae91f410ea0e62625839d0680af41801d9e2ebf3856945c6f390132590de2ef745be641d9194ecff2cb812c8e54f59","edca67c9bf4a0398777f5a5cbadd44bbf2161ab8ec0ebf889f53d075b3ad54901dc3a12045e6e30071bd2f4dcb5111c11b9543df4b2c115fdf090a1910681728baece7a484bae11b057619e93a18d923aeb473bbcdfb01905d12acf604175c6ef75b73e0602c954e9bd95ebf7d7b42c651f93d2427822ed14b13adbf777de94f","10001"},
{2048,0,1,"f42e78d662a757e1a3d44ded56e0791c04e74e156f0f4f2da51b58fe2e350f89bfa5ee01e0c01c5e46f9723711ffa915634fbfd2be0eb65d20fa79242d25fc26dcd47d121a7d4c4fe57e8c8af6d0390e0e89d7b1fca79296abc14edc6e370e20c978615240a3147aec4dc28dd52699f96b8ac6990d04787407d6c8b5224af497","eec84f3e35de36853225be0f9cc349698e67b7c8a9acdd4f1f72fa44ddfcd52b3982ff60660dd09919faddcccf1f27f8cc513e307c9b78544b8916594d9f5a1d97c75bacec876ce07c68eb014728efe1af0268eddc48ca8ef3867b836cc6ce81978b33a04d27a76fcf2570aef70c6b0febeccc149a75562d9b01b7ff8fdb1d59","10001"},
{2048,0,2,"ef96bae0a4350df56b232dc4d1884b30fd5da881557ad59cd076ecff81abf015c8db366474d3ef6e3ed947195ca824b7dadcb55b7de55506bbd61889c3140b9088534a23d716326749ffba2577aa59b89de746e187436f09ebddbba79cc2c96ff01da0680d493a0e2cd3e0243f8ebbeacb90c5246f7ef972c8a684c63edf197d","d3ee355fc015c8b5ca470b517999c19cec3b10fa90eeb26d66e558f509ac8fe16b80bd9b8e60afd8b9aca947b415728e7492ed29c4480c632c0122fb87bdf4a5518e5d611205bb1cd7f2e28ee10470c7d99b1d2069c7c0348e666df77c519f5cc0425cd4e1d0709b317ca2fbb0d8734e01b1dfde121141ae645c9b94151b713b","10001"},
{2048,0,3,"cbf176bd8da8d9c0310ff851fe2a9b8ae35806a333ce65a0be598887272bd6d25a5d6889e0391f12958bdc089cfff000e09d2b038904edf33b85419b60c137b480499b8169cf88c6eb2e418dc5b75460fac782258403828dcf55917d26f95deb0ccbadbc4190d416995f4c26e09792313b77f1643273435b24a0d17d3e2875eb","e0018ec0c4aed9b2b45c2bfa22f4caedf83789f904801a29d2d1d04282b3fd8ec44d89bfaa69c4ad1b0c014ffc3843a3af41adec2ba4dcc01a2d96f365b7fc8ef9ba99b9eeb4c39b8f88febca392ad5578b1be4e4b65ab77eb27e3a0e987a18dfe2fe330935c7ae6570b9990d6bc9624ec85b83b0f824005fe47f2085e9a6a59","10001"},
{2048,0,4,"ceb50d003723d434f2bbc92dea5d497acae9d3c0140ac1292efd8b327225c287e04861265c1bf5d3f3cfa4fce33b90f22f8c6e66f3be202415eb66d083ad8ff9ac4999915841ff8230465258a99c9f27d2b9e2775631be7609e904bc03d06fd7b2e846c293f2a3eec63fb5819f27ae5acbd62469471d8f528ed0dcf1ff68cbf5","e1b02755e779be309756d46473af0284c2121f14ac17e4b421cc81997b66487396bb11cb1d658020c06a1071c60c3b9f7b3022df8a6d70d50cb56c1dee380de187794bf2d9c51f406a9e2a3b592d6dab257418639b19600e95c731ec975f3469e51c6b764e0b25c23346e0986a4f63fef77ba46ba9c51140f9d576d15c0a9051","10001"},
{2048,2,0,"de69a74f15804c8e7cac303d81a5f187b937085b2e4c48f3d1b13e51bffd4e29589f239017e3e85c3a332df103ee1d8a2b5f7ccd145838c8630c008ac53cdb8e0d783057b4c833022a9616922d61106c3d035114b7843ba248137a205fa07016bb492fe0b8d7b390637506165d87eb17c00202b4f6a5917a27a4e40b084696c1","e9ffcfaf7585e0ab0385c10b58504b65932ef4eec0d0b17ff23912e33297c81abd35dfad752610a9c2d853c16254b079038dec56e8a8ccb458ed33e8877582bce1bf5d21128c40f0130452b0fa07ba9f3030dede62067f16850295ca19fa467ffb1d8453397ce70d892a4a539f45cc16e40a53ee45f9f38791128320e46e7995","11"},
{2048,2,1,"d572c715818091e9e4f0027689f8895a747743de5c0d28b983153904142fa8630b957600bd359646f34696a94e21d85de239bcd54aa3533fd01a9f9d22840c1ddc29ec0bb69d40191fe052365d0c6684956ac5714759c4188143b167a5fcd6aaebe6cc0867df8417f414419a03d86f0bfa18520122f495f6a370724421c48baf","deadfe020d891e2f8fc733c68bc7f587e7e491e6b31ba53bc730aa0828a04390d2e2138b4180e1c30bbee273051b0296794a5cf342c93af5aa61ddedc3412dbd2356900c12d1e94cdadcfaa8825ad30439e3b64f9c0e03333d9a2d9ba31ee2b4906aa1d29378d46eff6f171ac377c362838a6192d6b9b65cb68c8e1e245535ff","11"},
{2048,2,2,"e3e92454b52190000b4eaea2fa0c74e28a9bdfb8fff30bf67b0c15e881184ece0c70e1684699d8b70df7513a0b394e7cfb51af812386c807f4c251af490bc82f5db1f559e7e606543d89e98ba033ca1a69ba5199dfaf5dbbd9e07469a1617695827cbaa68b0e1a433d32ff886395418a561bf8c70e40bac3ad366651eeb29d95","ed29c9e1b652ab7f665ae2bf0e01c96abd23058f96b42893bbf94947b08e9050bf5cbdec388284022291019b267468e20debf205b7149c255cf4d0624c45fdb377813a50df963e4db406f40fe9212274f53f0ee18c4eeb80883ad06562474620d74172ab38887fa526cd56954cbfd9eb536d6d25ffc57001c09ba54d1862692f","11"},
{2048,3,0,"cd5e13ea620328133e50ce4602b92c19ce384a223e5dca127f5757c58bf350fbf885f93b68c4ae8d20f43487ca4c4a4371037715613e3e468bc3c81edbf3f923b1f9210180fa4749394e02288424465934ff0b4a45a90c84ed464699ba7a80f18b98bccfded1b2c5324e5bc1ce48000d1956fdc1e9de4948089b2550a2ba3e6b","d07ff41c343f537fcd5366740fdff4a9553546a34f3197eea6e0af28c8bf8402189d9901a4cd7ed64a468a43144d7bf82e5c62c7e359c00986ce351e66b018e8e822892dce94498739c380f1324055da53f19575ccdc1edf54a45ee5ebf52e51e7db1d3ac909d47a16710f26d3043aae02377e367e2183287c248b9e1fc0fa13","8000f843"},
{2048,3,1,"dcadb9cc91926203ca94782e1ce4b8afd4e585ecfdfe6a926124f7554fed8413fa9984dedccee06e15906e174cf01c15ea7e75052e8d26e52240f0f57f7d3b8348f5dfe2becc754fb9408eb62413bb141b72a0e165685bb53f052f7800b268d42b32518eca8cfd7cbefd057a94254009bc57e4dba9a0fa587e68ecbf816729b3","e1e1fd7ef3bb2684e35206ce53e9dd9a0459d221e291b20d80c492be7e01cd71250b5c3eec24e7ba28178da408e26c4d513d97ba1ff8d0655f29b855b43e5afbd9f65939395396119c703238d2ed78ac6635428398efbc1f3c91e9e23973f6bde8ed8d20f3ae03fbc3396278a9029f5c62fce0420bc9183c67a72eb013239fd3","80103a4b"},
{2048,3,2,"e7a187b43d07cd323b636e97b95e298ebd29b5b451d6dc426708c030509aee1dc8528b841fc221e769f9eaf896751154cb56682818dd5c624ab367b2f3195acd8c2b31e9dc0b7365d914c0922e6c2ef1b4a373e47009b023d92e8499fd277121669715bcb7c456323f044319b16dc9f14ee236a995c9f6ccbae75aed384b9e0b","f82587135bc20557ad50a61aac8fc2d0f06f3b10a24eb439a50177d9fe001b222cec5e551d1cc839156bbe9ec915ead87b3393aab877ebed4e7d961741be136e71e58857ba5765031ed3236a0544a2cf18540130e713d34e9020fd6a77b652d01417294f78c849bd512c645226bfdd73340346864f6f355284f725edf6629d21","801f7c8d"},
{3072,0,0,"e10a1af3dc99430e4f2873f86560309dc8f1d270e78ac5ebee6d30adbc3acc25785882f40ad4fdd07e693519b33af98ba8b229bf434442c461be701bf70c70208e8a23243e4a7fbed4da88bfdd88e0e47774b74e25eaa80646d0202d06156b0e050ef03b7b7e457d3e689eeb6431dc7c7c5d42203b4626b18b40bc0251255e72be5e298b0df778c379ac76d6499fd34515ec354862d39edca16fca282e2312cbc81628fd8eb5197faf7149e1293b2c2dd5c1eaa1147938c4c75666998cdd89c9","feb445b6f08e731549dbccbf365de08cd1a7aa06a88a42d4a44a2fe380465e30aaeb5aa4c3f2360894b36c84c7cdb0d3b8eb72f74e5ddd2c16a311ea59d1e179976225873739ba2dae7efe2e6a0833a95e9e9c63633bafd2eca518f548a7238d4aaedecd8cd949d49dc7dfe6391c3d9568fcebf0854e842d3d33c9024ef40e03e60ea2f99a4a5beb1e81e516366d3aaf3e2415f3934d4bd81157f940873c68cf0fa969fb4e17fa547435725828664314c154506cd3256c6840ae214a7f39b6eb","10001"},
{3072,0,1,"c72a3d318fdcb101b983c25094268bfb3cbf4d74aa336c49a0aef3f6384407aacd5d33ce3dbdbcf6713b704fe145eceb76ef2e4f03c7af1703a0f7c532822a097a010831d6c400fdedbe33de592ba37a6159dfbf070844914b9bf6df96bdbc602e1ddc59d05b3c21969556cb3198fc3289824560051769ad0ff0d21cc3d89323db1f3b75aad91c003c722cf49d5e4060d397a95adfc920b474c2b51150fc5d94363604256b90f82074c10e40e1f5bcfe09dd0992a50932146c44c7b669357275","f0b2d1f9eed4bcdc6677d676e2ed83c4dd1651527bc965b8967ec02154586fabf48dadebc156aed5e471a3da7056f49a4139329818ed95e830d424741a7d4cfd98be08611040c87d8ad89ba2816db9b569e13d2b07686c94c2bc3b1263a5a39443dbd0a19a121f7b6f025d290b40159cfbecd3657a4ce56da8404ccb6b4ecf2a25d9c4002b197aba75961c2612769f42085d1aafd16b9957a590d0cfd1fe2e6ab9758abeb9b0666f5ee92f9f7c1e4a597c1be864c04b4e62e1bb45946541f23d","10001"},
{3072,0,2,"e9e9f751ef2cd16680eb85f69aaa7bebc022573976a3ace95ff5db083aa62c0f76bc4c47c85fc0653becffba219136f16ae07b985b21601b690242266acf9ba020020e06b95b5701290e5ba441877324a13688fa55c33030dea06f374da3ca4e6df68ac34f6183bcf3c5ec98a581a2b572eae90637963dac49f31f8d822d3d89aeea8a043a180bce2b71d1b4b459b753b5ce529aae8436e103e42b0802db2e8a4062a723bbd19dd75551da9e6c748dacc271f40f5fbd022861671cb3c22c5d65","e93b227c7901b7b7eff55955db80f87ebf7f5e34cc47b0d5c027a41c2c43582aa7139a89169c02d40278865b00ec4bf7e49d06b9ebc59a49828fba059b5a95b71304b778f4dc2e44a09632e73c20a30ca5216a6a158f858b9c881da4a414eae52acfdc0c32bc0a6bcae94e05c2b8be5f893348b384abfb4247b1cdcea437fda581a9837cad73a0f0f5a06f099f44511756371dabe3104cb7a3de12f159273856024a9bff36a4bf8675d328b71f93830398ed35ab0418425d1a6ef35d93405701","10001"},
{3072,0,3,"e625f7d968b6d835a40bcb418ad0ab64fadbe7e171561b7827e846e9f62da491ecc7f6ea4f429443d673c89bfb3912f5d8d8bb34b7481810636a63bf0c385b418eda4c36b296d6b552d8ad421548e88f26fc46bd5b389857788a8c9512f28e90cf0ef4bbe64828a61b54a9ba6b032a06e91040ca22c9cbaef6eee77537ead77c59a9de10ea917b40c87a0dae73b7c6d78fb129fc229ef6b0d302daf21c8630b85b076bab66613ced0df584f6126c15ea685265eb6ef7c297647ac78a8c59da9b","cdd4f18182aaa4244edb77066da2519b604046018a8362d1ec102eb10f7e020826b340135e13f03e938740f782c4784ef602d1f277b62a535a9521efd4508edcb84f3ab7d170a7b5b0cfe07f1d5c52a9d608a91872fb1b4503a969ccdff824d0c0790dec477900366bf9c39fd92bf0e43ef8416fdff820b44691f59a9c3e8fb1d57bb6ac3ad7f89868771b73e0de1444a642099beda378faa9e170c9dec6ef3440a481993f8cae03b72f553eef88a842e87054f923eefdc0d5e0d873c0348a43","10001"},
{3072,0,4,"ee5a97d3cdd13d165b9da0aa0e50bc0b342ceb7778e6521f3cd872d5d07fb654c5b41ba4ae72b84e4b00031784090eb13239cffd8e7eacda571f5971bef0795fc2e9b8c50d0d951753de92b8f09cc07c7236a37bb154d44df776358ce78284cd95d9379a692cbef1d7ba136641dc7623ad626fa8b17a4d0e6db14ed4509b62e160d57e00dd201b58ef1010e97fd731e98b214e10d13b166374554b79387ae5f3de1ee41ce606a5ec1c654e43ef7d59492fbf7982de687573cfc7c892ddde527f","d50695f5cd1554ed6067a0cfb3f0f5921fc011c279be1e242634249dacf03d48b6d34a1bb3e1b32a929915b8354f1f9852851ca66be9e20218cb8c1ecba8fb9ad08f1c52d918f90f4f9e53c1e75b09f11ced4dc7dfbe2c9e19b7cf08f6ec3c36c8235ab8a789ad2580de6d17b960613a2d60936cba0dbf83537e0f4a7c4e6a94422409a3d37b21096e273d618c51d7fb2ae9cd69af4bb053080b6a1548f6522a73ce4607893fb503c3fec9c65ef0782c316eddb5b710737c2e743f8cf9ecc1cf","10001"},
{3072,2,0,"fdfec87116c72d8b8103e702d3f864237c655602a514a55e2d0faea3397480ddd6c30b6a1d6374f96157153c30170093c0b6fa3798105f5355a488809bbadc400d0f2a04b7192e42312341484690abecc4f7b7f25c0a162cb5d178bdc42f707825e25eb642cdb74d9d1f744d6b723fd11bccaf4ba43ae9845cb97462c1c0f78f338e8460c421cfb139dfc317b8c2e309f4a55bcb3602b01223172b7cbd70047d2eb0994f403d1d148d8f13838ee861e01e5315efe9821349b109dad84a019881","c345be93a2b8ee39aefe763627e8277ce76dd383047582bc611cde3ff51e1ab634111bb19037865edc797ea71bd8414c28f59450f346edae9f56b9916ec6682fa956af5da747979f1b3bc8300a25f4a05b95e159820f5f12ceb2bf4f642cb26f6751dc59157b7195723070f72a9e11d40e1d0a9060b69725885cb3ffa10429f82282b87f017566808aa3215d45d42fa5365c03f27640074d82d572a29420695a5d8c1029bd376aee87d0be5c12a5fb511056d93991d8967c777461ab1f5f841b","11"},
{3072,2,1,"f0402c267b90a925f11a715c46be5c41bcae70feffce657402cc22c5db862ea57c706935ce494f052d3ccc3928c4850cf54991f4c0ecf062fd76b13a74423b5bc96063adb077c13c76143c8424ac7580aaae3d2d7fcb5d91ddeff26bb2c20c348b4f6479f087f24f41a69a6d667d6d6f00bf0c3a31467d97b383b04e9e69ad3fccb3dfc30bf80f8f7665c6cb9512c7670f9287e46dc84eafd36ee58bceeb09dce4bd54848c5886bfaed9ddb4ac2d4c8bf79fd28efbeaa93fd8231a08041a31af","f901ad92f373858977bf9e3e5d98a1725c2203fdc63eb315ab41d8aa19704f9c1e4581adb03eb963765ef731628e4cd08dc84e1bdf51cd8b25888d9d50029b7bb10e152efdfedeafa02c7f423e8fab9ae19675ba1e719bec38c2365cbc0e5345e1740671c83c5ddb1e615ff43e88f4c9258d177976b7bf307e74a0d1fba9a890dcaab54afa23a567e5998ad20f06487cf715549bd8af697ad531833372a3aa0de3dd83daa02b3862431dfc4e4c13429903c1b3ad7a502048b4118169b4314c67","11"},
{3072,2,2,"dd2ea2cca23c699f93f1242866389aa457b5a4c5be4685320f2a4cc6ad9566cd930203d773ad080baadfb403040490f95614461aff30f784d1b366c266d60b71284ff5743714cdb4cea481ebfc052605a30ecdbc93e1e5092cecbac5085bbcd0d39ff3197460cfc768a715f96a0f21d755e438e403883f89b863b0c22a144726128f67343c323b718dad9ef7b600f699f9a413b8784f25a0981f29bbedac6f9c11457825c49cf6565821ef8848a5541a452c885c2dedacc06441723ab2435ccd","ca165304940e1d5e864f66fc0688db94d10bc24e5aa722bb5e3e611eb83527f4cd70279996664b39357935ca74b047e84ede9c35f6bbe83273cc52e4fa1a08f7f108247d37047635714a308da016225140d75910c215796f992051ee8453563ac537502a78ab2911334658de171a191ca3b9cbfaadf44bc8c55d357c000a0ad81e47caff9868aa6535f0ea76d5d89b90642387ada81f44473655b564c01203689b580edbde8d14dee57b9e9cfeb2c86e3934cf141c648c53d04f493c86d3db07","11"},
{3072,3,0,"daacabad344854e73c4e94f08f5814f5e0c09c6227fa9ce169339d160fbd22af087157aa288297707e8cfcf484e4e591a45c191df0b967e6a7e8220cf74b322cad4ab162eeae69f9754be44a1d9cbeb62b56aab9fd02c4817e03daddadf48ed8f945760c0066aa313575a9375a655d1597e8acbb4e600626a6189c03a79d11a8283d00d1c3e3f55a5cf00fac85e7f25ddb0e6c8b2b195f7c30d8544d0f794fb1193985136ec35dc98aa2733c64c5b453f0c7d538cb80affe6428c2ad3d20bde7","c656cd6bf050a7d479054f8d450eabbb037333dc0fe6d9ebfa14114db8bbf4a8f30f9dd5d83a6c2043e25b8d998e9334deee1dcb1e80c8e72a5ba6546ded50bd8cac177a10b0e066dc8baab5a076a638b5aaa1f6032d4279af2ace9d6c26f22cd0e678dea5034618594e20b3774b32e030f7381c60721c48609f14b271df7fcbdb870610112248a0c7aaf5bf3c3c9dc3330fa9b5ca74317d8186684ec674e58760ccd01e9a8d48e8d557313d81a03cb4ccb7ef182bd2ac3eef1bd6611ee48c4d","8001740b"},
{3072,3,1,"c50ae867462e77e46d8b63904b526771e23de6d406587804bf2aa9068084c89ac49371985c3c7ef94eaafa93b5dfc31f978190ad0b3f7474cb78894f95a3fd22bbc6c12bffd67372ac04ee28c8734a0128bbaf1b5d96926174657cfebb2ae11a7ec9dfa5de18e79dd16aae4582c853775d503851b9543602839baa565f8caacadd9b865ce3b48b25168dd355fc649d6950392fa4948c54d045bf5000a313dbc72f725e47ba8874b67c9dc6a0caa5bf9ec12f0fb558eae272cd583ea9b82d81ab","d2986f34d2150ea5613fb313035f52b74b04945c3cb7f342942313d4b337ad525fc0cdf77fb36773e2eab3bb3654750fa618673de549facf1629e2bccdddef5e931d93c6b2f223a50aee1388901aca5f29dd2e26834a0fc678d8d6153fc35d9933cd8d7141abcaaf34ba395e6742ce1a7b87bfe65d6c5cd8755f277040bb2a0893885f66d0ff59a861b05e648336740ff6d5ff0a63723a380b8e95e4a567c81dfa0f00d1df3908bbe78a0cacbc7c63ae90dc2e574b36e64e0ff168f940cc4381","8010b653"},
{3072,3,2,"eb72ea5fc8738aed78977390bcc9ce05983eec24a4e4e3adf2d4d58ad033133573f90fc6cff675accc7185127f93e7a0e9d14084ae3ac0d59b015536ed2a2f1dc29691b5a259e5835ec55f5c75dac6282886b77d6093d5e68204dc26fefe8cbcd2b2e1cf1b88993b8831a001862f7024fca4ef0fcfe7d9f973a2fc49c1be1fa874d8bd548c6e4b84fd8ed0f7364ab99e4965bd653a85c8e8f14e0286fb4d5c4b6903128584273157296392931f938ec8d86e621a4164a43eb1dc80ae80a54f43","f08bd26ebf444ff00203a0ee91c66375418cb6c3120cb1b0169223c9e1154484a0c4458474bff8a5de1d538e78f9b60d9b5575e0764da2e1c0ff0f11e316ebbbec123fc918d5147d3e0a5be60d16c50ed2b6a62845827705dde8aa5ad431b54e794b9e6f42e6e648840d349712db81a00d28eb63f296351b5e5f3783d654a6e823fcd5d3640300f9d37565733457e40a2d02cbcb27282b8849f3a1a8224987cbca02071b4b8e1cc4b4897f6be8114ce09623073ef7ad2f28fab3d2064e3d94cf","801ff8a1"},
{4096,0,0,"c1770c6a3ec04aab7597d735d214f628a48cb701569f99ba6d53c839f2edf801d8be5ad915da75790022f12f8b73d8d8b4b76143a1834976242ad77e958cc61770277e7907a30d58b3b6fcd2e64fcd7b5fb612343f9efe1973fdfdb6afa575826d1d29c2625a9e73806c7de9cb7e6e6a8208501f8f8a2007fa38eb2c90366967292b5998a4a74d214643880471226e7dfd2cbd89f12e4f26a36b74b4aefc85ce91f56c6f5e5e6a355239eb78114c0d8f3c0c0c855f19ecffe428766577da1d51fa5b9635064035a9945e02e00ddbc841ae90f38230e77d2c04b2bf84085439fa49174b502251fbefe0ddb910c7f132b09d963e4912a26c62ced19e2ea15a1e81","dc41d0c3aba25318c2b9378ea6cd24f936ec8e4642e666e47921aa7b24a2fa3323458639c29073f060e94cf8a261e2bdca38a5ab462a959221d172b6d02df07f2415fb14cfb72b63cb8b949b65a400a583d5e63306e51e910e3785d81af325f75f48552afe3209e5f177db3f1b742b37734401d542daf7debf430550e0a91b5ff045805182bf7263135f406489c7953ea6ece6868058dfb810de960b29c47b0ce5f9dac57701aaa134b3b36a764cbdb7b6e5f3d02a7ffb5a7193dd799f097208dfbeb7655204bd05b6579276081c1949f24abb9e61818578e31e67b56464f3b7dbf9372ba700dab5637809e53b37c1806813f1a251a19d0369e70b2b2d4885e1","10001"},
{4096,0,1,"e93caf8276ac0ae475d04135fde423a9e6714093be56e3afc5f3176d9a348e5dc0ddae0dfca9db4775b774ec8003768b070a2f8843468b6bb0e70b16a7c54b61355b37a9a010c1ceedb5a92a4e2b91f4a225e01df9fe85a39ed250f6170eb2fad5c05969b1385a66728c7024b1a4f8d44bc0a80611a49ca272ed7bfc6fae668dfb47da61b1235a51bbf870fc1cee512b6bc1b894576f89387d1f80e1b9e72646378099e035910f5982c2bb93d0c380d7286dac0b149a96cfaae0caee901873e27dea70b238e5e7f5c128df6fdb720a9ec1a10fe4162e5ef694cd1df6b4426f4d9a907a8af9133b0f6aee5246c87182420c114d38d37e0915d05a5a29de4eb13b","d6d9b053cbddf3623a423e822ccbbe11da7d1715edbb3ed75c6d12b3970bc0a154e7ca8dd95cfdd37f7143fa19e112e2ae9e95dc58cc4f30da71e7b3e3d92f7fa70cc984491a42833c572932721beb4a2ebc8abc9f9fb575911f45a42bc453c2010dadc16c49d8882f7bbb4c56d9110c93f71f008d6b2be29876aecf224bc5c796aaf9e24ecf942167cbd435fe1e09965594e4b55ae8ac3a0f1480bae0c346f3eb9768ac5154262b32c4699eabe2605346ab6d7d2c6e36565f27cdcd211acade6c99bd0d1207c43b3c7ee5251dc93992ad3b03b031e689a23d8cf28f2601d6d133de9650915db82667777649b7e7732da38214a30c23bdfbbf12bb8187e27691","10001"},
{4096,0,2,"c5cd4f6a14f92986923ea93ad5397b0e53aecb5200514f4432aa2443d450757568779efbefe185f323fafbf5667f18b26319a38edfd199522360957eb91931c5bad615016aba855a92d23489944c999d17df0d0a7189ec20bc8af52807d2cd2c2d4cb727ac67eb5240a4b66eba2efefdc6bbfbe608473652d6214380fc3a5638f7b9be9130dddb3462441fc695f3161be1449b2c2bc11cfa7a4807e4d66a3d85a7032b5ec52ad09dc198c48fa4970be52cafa98623f4db74e0565dc220feec9784f722190c29896bfa0db5dd58875e2a3d5822ecf2ab502841d422100cde2a949e31bc77e692b72fa98ac24c90abc08a27c01b1efbe8cb12c8b623e300a1ae3f","c9832d3d03103e0f69450e4b1b4496029f32866413f2a89ed48070fec5e6105333e66eda0f8e2868cf901689dd383414f3e1298c1117b31633c4ee984429795f7e0acf7333ee4cf7325d5383f47d99a38551dc64ec49e319669d98edd1f3bb5186697cd69790ccfe9b372c125be56fd78931f470dffa714ae55bdae9712d9f4e0ddaef24b13d1499534370bfc16eb33aba6b2dafdca21d5d60ca38af94d2ef82598645c113104abfd3440717a480786ad9136b6a6870a9d00daab0fc138efa64b3981d977a757ab21781396b670ed5f1858c4bae703056432b64b4466363f5bf8050ca4288740314ee5e62f2151388d42af728e1eebe116dac641b19b251ff8d","10001"},
{4096,0,3,"d6c79b483e50d19114076ec48507d34826c42a2380cc856275ec49a8d58367b6d705d0a2e46cf7fba2a2de5b960f0376e7bac48bf1b71fb4b3a4d89062bd3535e4eea2845370ecd161ba3ddd975f6ab0a7a5a89f9bf1d17df5f840ace525505828f6b55d133170b55a52668486228193ef8b6e42c263ec78354fb34dcbd8f39ae9c22094e19760fd4e999c6e1a96c90729d811956b30994fc3927941b950a4ac0bb7c86c7ad747eb5b170638031f1163f1ffa83591b19fa5fbd65ad91e917c597e890ee57ef63d1e6e65604fc446ec79f02e3a11c9a16d52438ab260381ae465b30c31080150839e37f53cbcbbd6dca612fcdffff1dd4a362da6ae4b3571a37b","d46bc2b9063cd9e209adcd402a2c360c09c0219ef1e5fabb6be3e8c83c5abb920e53c7231432afe86fbdb6823a8bf38affb2e507ebdf350f8d09ac5e092ccae914cd4690d4077654716b9b1231c29e702ca4b67543b56ebd883a35d820f8717a16dfcd1e7171f285983dd939279a51cf36dbbcf6e7c6286d9cbea382bcfd4a04b7dfb4fca8f9588fe3fd08c65e045e0b0e3026a9c2539e7f151ce6c6e4dcc91f166df5caeea87f565ffe8a82b8bd20b573f7b54fbebcaeeb80717de4320d2901528794aa42d9db82531bc0f8e65d664e13797bf68a79aecd4e7eb433b9e7a8fbc186ac905a42ab5298c19df1f51707428d73be52d6116fda21369321ba8d921d","10001"},
{4096,0,4,"cf36d8ad87dc0e86c9a7d07daea828835211c10717d4db46db5dba1d6cba9ca5ac51e01fa3eaaccd062125e3198a0e95acf9346e13d5f9283cca61d2ac12eb72801ec5bb1f73aa9d64e3d5c8db97c329eea86bf17d098e36c470cf84aa9c18f80e2026a82a2db85812ef5264dbeb3be90b9632d65ab31c13cdacb93af7cc11f6dac532fbd18a9e616c2bda46932dc0e840b2132cb16d4881c825a3df2902887dcf9486966a63ade4ab30b07525e5a489f9ee9e6f9d69d16a8dc42763b5c44fb173561910725a39dc740488ac231e6d6f444ab5c81e3a421f58b6ca61740e1a5451961b0b162f4a97ec599d6db84fed95f4f3ef196cd9c07b5ee24ad538533397","d521101adaf5e00f7aab3755aae125bd88b1270a43e893852a5f2068fab3d1d5428674300bbfb08e1c1958d1b577e17e73752089eb933f3e994cab4cb83634aca612b50bbf59c9a2802c0c20840d4972eed77253c45e56b632db5c39831ed756a310c18f4c4536220c4c7c1338678e8095ed873d9f1084a5911fad68de1a1937338d2e26428ef8dbfb1d33dc9bbb3eb726722a7b33fcf9023289c9ddf72716c16bd752b1c180ed9aae21448e2513f6b86e9ee9f3e578603a6f0d40f4459ec1dd4ff6dedf64883b2bb60e5f03da26d99362bd84a8b4db8c3fa822526b4ee7122107e29ebfdec9b5361458c2907f4bf64d38213990cda1dc103878dd33c549dc51","10001"},
{4096,2,0,"f994133bef508df79b1764709c43db584917425e6998317162337818b2ddef4a0eb6ba3164c29a954fef6cb552c59ba6011f31810e5cc2a3d8d84d07ee4da49e671d9e7972834ee1a0c297a2c7ee2d40ac7e5eda1c98ee4674a4b5ed79338ff7091ac861b4d16783372a87be9758225cc8fb93b9ec77aa204618373dd77f359026b58768462218fa396b84eb0df1ab6cbca7692dfd73eb360aec32d07530b20fbe9cb98d2744e912eab4a21cc34c5b0816b66276c81fd120bb2458ed092eb8b1d68592c5af8bf51d93f39223ff7a903638800a822502484da3ccc5c039d54b25b03c5cec03bbb5c0fbc67a63d5f657bc44c765fa8f5a009bbfc46a2e53aabe57","cd2f07edd2657ab38bd09815453209780f4565ade6995603e6c636edcd5193376e3092d8448b64b78755222e7ed0784e8dbaf9e65ec81794a87ca0b1b0b303d523660e06a35cb454774bf617b068bee6a786a47a828ddbf0a086a6e69b62fa2d17f135bfb6be910c52ad972dda5edbb761d74f5d3154c0e77bbd9a6a9295be89adc692f874c0a2143c11537dd499c5c46a76efdd6e91733794de81be968cf122ef206ae5a8191d4b1f7efdb1be362d4df485e37bd599abaac637e9987f267eb1ee2d797643de3a64d168977e9a4264f140d081c6a45b0e65b7c1c7bb7c5baed85df4c0d51c7beb895deaa251020e42ef029c96a8f70444dc9817c9e605897d63","11"},
{4096,2,1,"e19a33e86c0b4a886b383c71a52f5f20d8734487d62515600f2b1f0273d08c75debc65555e3301f438827cab5e328be2044172554dfbc5739d1e73b5dc9c0f5e7d0254b3a468dea5fb3f64366682ca08951b2cf3c8a4a66443ceacad9debf06f43bbdb9bdcd4a0589b123c6421bf850a2c6c8bf356622ed7fb15b7d84544d002cd01497e85b13b5595e01049eeafb8ead0b16a0897141f220e295df6d406e021d0109a30407279b989ce368059630a831b8cd6fffa083e54bd1c623eb7619515584ad3fc8dc328a878e522535380642afa84eca4626713ae7655527756a99ed94973b4585c87875e43e3fc37d1223eca69b761a389e6078c78c937387379f2d1","cfb469df3322ea03110602b401c35e3da89e5f6cd7d0055a22848239c2182a28bef3677d5dc89e1d2b5c3547b61060c04034bd3fbadb3cb41df5a854dbe23b0969f8183fc5adcfb2834fba31c2c0ae4def6f8abfd0cc5206a4054f9878e6a01189ceddf6c23935ea7c9f52d0d4d8ba0d5457007ffed5987e8fc7225ca6f98f28f214e2a2f0341ef5362d33562b1b7d1b6a37deac537a96efc83deb2a6a890038a7799b9474d0d92cec778884d99666f18ac0e7151c7e1a535721bc87c4d3e27fed128a13cd1dc038c6d5cb0bd06e6df4fda766298be0bad1722b7925eb26a6ec6063c3065b142d8af6c23723ad875d4044830d8d232365cf6b683f232438ed69","11"},
{4096,2,2,"f3f76457771417068a15fcb0e677b0a09ef1b24bc8a0a10a654a7c1f388793a3dca6acb60ed7110bd93eef3e7e002a4f443ea6fa8c5e4b9f3ee4f48bbaf9abb5699853c2db878846d1b4bb7d16eb34f6552e4d03f0be03678626aef3bdbe3eb5d2938ec6a245ad24fff1bd1d420786f9a471484a2231c7ad7196eef08541bcea43f4e2c787a9cf46eedabadab6411b6ef4b7e7d59db161007394e260cb72447a7a2a1b886e7257881c704e3c588e11c823d4d639d9d58ddd794acb6516af03cb77cb61037ef2328de286c8ffe41ee3e5beea470a110832ad5e0430307beca4fdfe9a8a35176a0e1fd6d9992934ebac690ea8f309fee090de31aef07dd2065267","e1ed237ebcf2e124891f52d4010750c780f16ae9cf4aec215d8c204e2d874a139120e687efc44892989cae2361465275eb5246e062f178bf8240054ab714dbf9ac42c99609303779f5226f7f2b198eb3ababeaf9d8c389f83d074db2b710421860b66b613beff0fabea26f87847c786dd330e95e8a013d5660b203847d6d900fe7e0b200105bcbdcec6c79e0224fe828e30367662b49bb08cffeb2fb8fa8bceafddaa87b8ca9950c49ab69a1eaaa7c67c64107256c460eaa3c2018c716ba04a5cb11aea4889a8e903c5ca9e3a7b048909b0c9f79519548a9cf4a14b634b8ab9cfa23c89c40a3422d75b6dd58cacd1db024c17e0a2325eb4860fbb0d84c944177","11"},
{4096,3,0,"e4476cfa5a62cb3ecd3886f825aa1a1301e80346834db7ff94b2ecf55bbd07b8e35b00fd639d8410745cd06dfb5ba8e04ed1b82475fe6f84fc33d41635d264468d7df3c11d064ee6850a636e56191aaf94abc76edbf49dc8b53464f47ef719c8079a664209f3978731aed4daa89311f8c1a59cb9e4607886c8058bf8fbb127c171133d0b178f8ade1d37dce8f8d75d30736fa258c447f5602c4ec8aff543ad2d0bac24d0ec384c60b54f5c6b59ec1bea1c456bc166f31f8668e91a6bb7d25dfedf133137aefaa09913f007ee319bc060e2bdfa9fe6d0c4b9b881ec4b192f48ba9c74dd86670d2c0bb2f2ab16526e9b464ef60cba2363ebbf522305aeba735641","feea4742bf54ec65fc831a51e6ca104bd738818f433799ff85d75a3aa29a57bea53846b90bdef7e6586c760cc9b7962acbfbf88fc20bf99faae9e61d9ac257e34142b063ac51b2d0a640ec48af757ef5cf2bed643022c5876d243aef7af235bfe54633d0e9318bfdc20beddbf50f7c706ddf6390c65922870da67e22d31665860fd8287bc28243b26135081e1ce241a48c08255aec7f1936a6dbb5dd19c4783f999ff413ac9fcee58abc054494c5ad5909f16163ec92273743299c2fe3439e81a0be191ddb909258454b1256824fcae831a8d801b0ea7f8afb30af42f88a04190259364497b86b33312fb09e3e693d57cf2b6a4abb4254bc5c5812f58f0955d5","8001f035"},
{4096,3,1,"ca78c091e602b8ad90926e98e1435acbb941c13ee13344705188dae84384da73a4df80818d013d18eeac4fe942f5cd04572f6c870c9858020efbab1f1cd1c3f8a535038faf13abfc7098df19745fd4724dce18e598a049c99e49c60d33395e1b90e2a4720f23b5c21f059a3f09a79ac547642ba529fc883f9e7e0e2375e0ba648ce003a75b8b4c9f9af57cbee33c5f202a1a4025c60467cdeb21fc1b4bc4f7d5d4796824a6c5ec314851e02ca10df34970e8bff6af37337e968302c22f5f669a46d74287c8127aa72e2e47dbc42e49cdfd2dc3c960b189b59b24157d5da089c5da099fb9f33e6a1111a7e766873db0bd2e441c762b1ea4681fecf6b524d70ded","cdb65f490c68d4bad17196c699aed5b02d6d149559a3573a8ade08b40e019717e6426694a38358dfab9410ca8f7a85eb6cfad50b84e53ac272f6aadb374d7ba797f14bd2ecd75612bf74be19f1663e53f6feb651d28a867edf591caf9f7c967c49f7e9ae7515b2729c30ee708ac235d4a75abae410bcef6584c4708aa51bb0ad5d0fab395a6d5d50bd423952c6d58582a26d69062c355f769a5a42acf711eca92369c75ed76e64c66721673c228abf8e05cd2772aeb3509590b1b7dbded92bc4591abc679e2e9493443c1b20eda4f1ffcea2df8a2a7167ef93dae2cf12af15242cc3daaa622ca4038075761bb13477c2e5630a4eb8595b1cd5c0be80dd2e1d25","80113253"},
{4096,3,2,"f99dedfe301585a736d21d604cdc78be53e5841eb0f9735803d8550cf74cfecfaafa9f6f68df95a4209aa163dd6e4400e75fc6a264fc41fc7e80731470ceea7376c5dd163b03f8f8484e924053601d8b43b77088d627a3a75e731207902732facf810b27417fb4c2876562c9f82865505ef3b6c1ebcdca62148d6b45cfd9fca6ad16087735b0225c74ee3827fcc5490f602673f89b638aaa0995d80865dd83cd2967aae7ec0e982aefa8ee2caad6e8c18b1d235447cbac58402f453c8d9ce334d3fb92bbbfec0048e2206fd7d05fd74a5dcb3723a3e789b44138f50e55c278dd66330a8a7ca4f17b393f90d549edf235cd8ee6331db2ca61081510c6ea8e28c9","cc95ca08fd57fba9e4a491afb2bc8a5e66045bba4b45de2f47c81f1b97ea5de9f741f268160e785d8343564ffb5f1cd06b5f31184e009245dd551e2b27e04251e7de5be989dcb452bbfdec87006b7f4f45ddae74fff8c8551208b9f3cb60347347068ab410ff96e8b91ecb53d814e053de9c4c8e0c15144c6d3049c9719709ea709a674796c7f9109fb309319017387602ab0e66c79ac9c76abace1bb346886d6bf80a6483b2ad5d63f25df8bb0525651dd479212a6dc49ff1ac9afa1b7b430088a629b3854e6d3801b73500446c352b374d05d76d8e69dd6257869f94b9a07a8a4d6723631e1bc2790579556794f352d1f21ba4572c35fa2c01a4c366c0617b","80207491"},
};
