#include "ecos.h"
#include "minunit.h"
idxint num_err_n = 1200;
idxint num_err_m = 1200;
idxint num_err_p = 120;
idxint num_err_l = 0;
idxint num_err_ncones = 200;
idxint num_err_nexc = 200;
pfloat num_err_c[1200] = {1.373454675537791303e+01, 3.793337294877577204e+00, 1.079440213396958725e+00, -2.281340554049420266e+00, -1.093872549624507418e+00, 8.788062140704928638e+00, 9.731138501637911276e+00, 9.266461687691720517e-01, -5.520279696205655284e+00, 3.679897929641757770e+00, 4.239807732517598460e+00, 6.204954233233025640e+00, 2.017132849879547329e+00, 3.374235755159305405e+00, -9.169482036130982561e-01, 1.297183093232211881e+01, 8.892779070318205470e+00, 4.058378694938213904e+00, 2.644584988840372297e+00, 3.367244339855687052e+00, 3.908297079780667982e+00, 4.331887868866935776e+00, -1.815923643331669446e+00, 4.840806183712095034e+00, 5.169262709124106792e+00, 8.865356372855492939e-02, -2.356311208435676541e+00, 3.831198322418076785e+00, 1.048561411808170973e+01, -2.409760851560931005e+00, 6.135077250478994770e+00, 1.161810786022732689e+00, 5.671542829215212578e+00, 4.106935577205809373e+00, 9.810742143620149847e+00, 3.370034500616831963e+00, 1.021851184877994889e+01, 5.194444312609925340e+00, 6.344995049288154831e+00, 2.627943388795951574e+00, -6.265836994250864045e+00, -2.537728432859373662e+00, -2.628051874327476334e+00, -6.962102976553213196e+00, -1.226064319798835900e+00, 3.333973671031326358e+00, 6.127277841299654249e-01, -2.414892722351894783e+00, 9.398493068886331514e+00, 2.189919831293564823e+00, 6.759558287294826329e+00, 1.126441810779466479e+01, 6.565571872651513985e+00, 1.486672976507565025e+00, 4.807346496665806157e+00, -2.505662977201033037e+00, 2.179924710836255386e+00, 1.279426938779159917e+00, 6.720621623585827820e+00, 6.204250234627677330e+00, 6.202875845408634348e+00, 6.591682518450558970e-01, 7.150208450320962861e-01, -3.166791592310247871e+00, -1.612960949646522701e+00, -2.316310862175982255e+00, 1.602385531830172738e+00, 1.218290840833131661e+00, -2.638853020289019469e+00, -1.326282704474213148e-03, 8.709348994335494254e+00, 9.353510067945347117e+00, -2.929200853714959862e+00, 5.675626733626019771e+00, 1.482949325671286012e+00, 5.118563665275617680e+00, 1.184211671274167976e+01, 2.757015935136606366e+00, 6.885591690656577057e+00, 1.130035367699953497e+00, 4.068870844109652829e+00, 6.616928721284836001e+00, 5.290771779555646148e+00, 2.637033850329705942e+00, 1.011611162066186687e+01, 2.844679167905781458e-01, 2.619584334002114101e-01, 1.056659755007336621e+01, -3.060176579479199965e+00, 3.082214816635618249e+00, -1.508478192404189677e+00, 4.890740555843168025e+00, 2.180815559478377796e+00, 4.388672822245421656e+00, 6.405321722830907838e+00, 2.526915010519278582e+00, 3.707208505659139064e+00, 6.544783220758042752e+00, 4.354588563476096130e-01, 2.204145523923824790e+00, -2.669012009968291910e+00, -2.587107392040138176e+00, -4.402878198078947314e+00, 5.727684023824248349e+00, 2.963630342519960603e+00, 8.068761194224187694e-01, 4.691606036868143370e+00, 5.648818501996546892e+00, 6.391299552509295268e+00, 3.191167949640812296e+00, -2.237529425194473287e-02, 1.601531550851873487e+00, 1.378520446354214890e+00, 4.120775377497040814e+00, 1.648795137005238942e-01, -2.002990036602303903e+00, 8.569675350589558427e-01, 4.379169526606555785e+00, -1.804157709028271883e+00, 8.463778109824923179e-01, 1.068420813159068672e+01, -1.762296596046548203e+00, 5.055031814168707172e+00, 7.856045152250796804e+00, 9.588749496350025936e+00, 7.047187388578328715e+00, 3.766854058671964545e+00, 7.408271010760078212e+00, -9.933568710570592764e-01, -1.543675653168170570e-01, 6.962368090039727786e-01, -6.269710977426377951e+00, 7.287244392436051932e+00, -1.827501723819970447e+00, -4.089963761906048489e+00, 8.982093166493413605e+00, 1.369018125188407176e+01, -1.700795366912668527e+00, -6.853627194124878308e-01, -1.664088018151064663e+00, 1.517369992866877126e+00, 7.573786373305242847e+00, 7.036017365656523914e+00, 5.265422392609981905e+00, 1.446301731061750306e+00, -3.810110063856175788e-01, 5.887270547268976806e+00, 1.154378984886880843e+00, 1.760484805413809584e+00, 8.740480951354225425e+00, 7.088306594104393454e+00, 9.552804946120212470e-01, 6.127887970826478181e+00, 6.463236989281069711e+00, -4.439595625066527163e+00, 6.188918351085517244e-01, 6.837241938963966703e+00, 3.004910039986940617e+00, 3.869987764001075803e+00, -2.359261024135030027e+00, -9.818816566274268798e-01, 8.603055848481064416e+00, 6.619117028722991236e+00, -1.059920531006721234e+00, -1.536187486352323273e+00, 2.158939766515758585e+00, 8.679053288818636247e+00, 4.592630062177959438e+00, 2.663666326672402107e+00, 7.905233253249391190e+00, 3.773299218507855102e+00, 7.820801411763797617e+00, 6.819812027507222041e+00, -3.597461850278640405e-01, 7.586501968148743558e+00, 1.627573151038715693e+00, 2.732592141285776211e-01, 7.791534565668913004e+00, -1.166980458120592701e+00, 1.162632037794098316e+01, 2.644295219350007997e+00, 1.861155684581055347e-01, 4.399825701720764926e+00, -1.129614429373972939e-01, 1.154544383792839302e-01, -2.371847785452252833e+00, -1.216948502892253536e+00, 3.765371241846575678e+00, -8.501525429930044675e-01, 3.918774499998938676e+00, 3.620472723833624951e+00, 7.217189242170510610e+00, 6.145087346105448489e+00, 2.902534553040940324e+00, -7.177482272124346974e-01, -1.739152553063151752e+00, 2.990186307360886420e-01, -4.692463163711634522e+00, 8.668151639727428304e+00, 2.196439904806053001e+00, -6.336883637504071132e+00, 2.020998764068095088e+00, 4.957570524228729347e+00, 2.138458758166912776e+00, 2.101346737939621789e+00, 5.803267180739347886e+00, 1.968717121957739513e+00, 4.049555781402109922e+00, 1.598527417233065240e+00, 7.241646597607655167e+00, 3.224978528176930759e+00, 5.266005484650571944e+00, -1.843490461834821792e+00, 1.180989739926788396e+01, 2.337690517526342049e+00, 1.886581700487785618e+00, 1.268288314144077056e-01, 1.246747167017423719e+00, 1.150890211092594129e+01, 4.585910448534283645e+00, -9.478819913291989252e-01, 1.541838715654408665e+00, -3.846990553061939710e-01, 6.588389895311555833e+00, -7.301401856533747126e-02, 3.720209211205767197e+00, -7.969188826280108273e+00, 4.261019023844292875e+00, 6.360859238789579706e+00, -7.866086038881642040e+00, 1.975857570017518050e+00, -1.080261579569710806e+00, 2.276879385893781471e+00, 5.926882103174115457e+00, 3.335085673601642320e+00, -4.115370456811293209e+00, 2.553019456330538617e+00, 2.846862819305370440e+00, -5.391928717262056914e+00, -3.926679263718090285e-01, 4.263168867029687448e+00, 1.199039363239498890e+00, 1.363003446309491773e+00, 3.492898562201191659e+00, 6.475706069835724499e+00, 3.911974195467333715e+00, 1.082404760351915307e+01, 2.920027550332588984e+00, -1.543363094338915609e+00, 1.412128066305660345e+00, 1.142334106674213867e+00, 1.990713314042962478e+00, 5.598328614211951049e+00, -3.840652221660274535e-01, 7.198312218416094144e-01, -4.323928736444244691e-01, -1.995021963026835987e+00, 6.800915579179430459e+00, 3.985341152570295087e+00, 9.758951908482661253e+00, -1.899937146791043086e-01, 1.673763127214714652e+00, -1.368118468527635745e+00, 1.149245991939396472e+00, 6.808283672531056041e+00, 1.750236461730484194e+00, -1.593306021059558431e+00, 1.351352777781453796e-01, -1.811486587229052425e+00, 1.015363939288860262e+00, 3.750701634653220928e+00, -3.567876821226278139e+00, 6.104563312456924962e+00, 6.629531512523210157e-01, 2.226295091832062312e-01, 3.911922472236953219e+00, 2.420336097520139340e+00, 1.054746130779602664e+00, 9.295445850718362379e+00, 2.715209609309482186e+00, 2.112719595521893812e+00, -1.734954334126636688e+00, 4.054636148926336503e+00, 3.682290894823560645e+00, 3.026954021749739265e+00, 1.938707226730274069e-01, 4.146743543084638439e+00, -3.042070962023074809e+00, 6.549987388938649957e+00, -3.051243701812459186e+00, 2.763187812173504732e+00, 5.350329496080497016e+00, -2.908111223848757643e+00, -3.931088537131721683e-02, 6.516525603731133653e-01, 6.730832825981037715e+00, 2.028962838613274755e+00, 4.317043638767181335e+00, 5.030807731042248321e+00, 9.517613045378750414e+00, 7.764948554436339911e+00, 1.809471543749297862e+00, 2.904385531870892656e+00, 8.054832972352997444e+00, 5.281787456693848526e+00, 4.396207692026639968e+00, -1.911510395778670546e+00, 1.184874187783089639e+01, 8.298252009077314639e+00, 1.493521287665350528e+00, 4.903218547007657691e+00, 6.958718792616823023e+00, -2.556344002559591821e-01, 8.709740186405214857e+00, 2.974124220548908681e+00, 3.973499868220928377e+00, -4.094923937975898376e+00, 7.235323288095353078e+00, -1.202014540068315540e+00, 4.237751475565996628e+00, 3.763263577707928187e-01, 2.466545547173468744e+00, 2.214897327060907362e+00, 7.741721307971710431e+00, 3.256805667309091046e+00, 4.243893402144338189e+00, 3.261956208448594463e+00, 3.460265151310130793e+00, -2.041612194152980120e+00, 9.215032952386803089e+00, 7.170378997201146021e+00, 4.460198314219367965e+00, 9.439480703052784971e-01, 2.996007218214753021e+00, 2.311702198033883882e+00, 9.214775271921793021e+00, -3.987183714955748748e-01, -9.914631153953632481e-01, 2.011045546814238083e+00, 6.122023856352055482e+00, 6.143002686876855023e+00, 1.170663178172224983e+00, 3.810176445559588565e+00, 3.848950854017638701e+00, 6.801604808806946956e+00, 1.228561454728799074e+00, 7.159339196188560628e+00, 2.812411078642462314e+00, 6.413209306313563118e+00, -2.096534296106328910e+00, 8.230411191403717019e-01, 8.966282813745692692e+00, 1.208458338334636117e+01, 5.480376890908591037e+00, 4.832232571723036330e+00, 4.947622830119027704e+00, 5.961016641956581097e+00, 7.504606088677627795e+00, -1.841598799960935118e+00, 3.989280220832751578e+00, 1.525588876259166726e+00, 7.302535145390598004e+00, -5.368438055927152730e-01, -4.104826958909644219e-01, 2.701384190332336566e+00, 8.612055145174039694e+00, 4.042103841750379623e+00, 4.683404979878376118e+00, 2.942843284033788809e+00, 2.014723868796891360e+00, -9.321288443449855521e-01, 4.944114588697030577e-01, 1.277257156843257668e+01, -2.193032843255656061e+00, 3.644438592850864467e+00, 1.330658733258927917e+01, -3.919186508185224849e+00, -4.574863518445905441e+00, 6.186724684932040752e+00, 2.009548529694030972e+00, 4.641199269915841974e+00, 9.530316305605217586e-01, 3.079479844686848544e+00, 2.884522196549037520e+00, -1.182129319887848418e+00, -3.119479674552311010e+00, -2.130882485289780970e+00, 3.461023049033936871e+00, -3.856025298302658832e-01, 1.716799165482464584e+00, 5.193395521579807550e+00, 8.345147619907685055e+00, -1.001192112287180080e+01, 1.156180732639116826e+01, 1.927549303554937143e+00, 1.945669023284680721e-01, 2.942316780718484903e+00, 1.192771542607481194e+00, 9.206866629244640166e+00, 5.288250260769872924e+00, 4.288371748638835967e+00, 9.009361196035673203e+00, 9.020680814111265988e+00, -3.346542047517249707e-01, -2.333952551021523103e+00, -5.137234827514833846e-01, -2.288455001646183540e+00, -7.852213319680897419e-01, 4.599867814885628903e+00, 4.473450888999368047e+00, 3.419514153649080068e+00, 3.311861892445112421e+00, -2.080507834993727379e+00, -5.970451155514362895e+00, 7.859619594368801643e+00, 6.672285737104296288e+00, 1.817865146328379700e+00, -5.414595761219143100e-01, 5.488241395658880251e+00, 4.400365602382806607e+00, 8.791899675889963461e+00, 7.376909358287608853e-02, 3.252707987017831925e+00, -4.800589498165601654e+00, -1.258082586079914300e+00, 4.520040517541545455e+00, 1.025607265234636145e+01, -3.253094529272273050e+00, -1.734839647059133849e+00, 2.919791970742558362e+00, 4.768010321574346122e+00, 2.403219717001063849e+00, 9.251185866131379498e+00, -2.058188721423732659e+00, 3.239344554937625631e+00, 6.543008664427809151e+00, 5.577270962055954406e+00, -4.125496885344865028e+00, 3.827137091668431967e+00, -9.685378580837076257e+00, 6.188555776177771861e+00, 1.010224762305523605e+01, 2.382047697495937477e+00, 2.452951956860043303e+00, 6.652614383597518000e+00, -1.800714904357101354e-01, -1.062564568625584460e+00, 8.571407856739041264e+00, 5.352672729659782469e+00, 2.373291932519421277e-01, 7.457797159886895066e+00, 1.603116119832520114e+00, -2.365392301571644929e+00, 2.661653044724862305e+00, 4.053923739860164410e+00, 3.359288968748687765e+00, 7.742067240741103973e+00, -1.377800809739580679e+01, 8.787585555000038795e+00, 8.575998207795283435e+00, 1.596681808444602613e+00, 6.933602386383763694e-01, 5.662147920416313873e+00, -8.160486589712913741e+00, 9.787288461624232827e-01, -3.403704963561733798e+00, 4.171267888801653889e+00, 6.751100421994921774e+00, 3.805345804857075187e+00, 2.106059379927184505e+00, 9.694460436156010275e+00, 6.923535512725742080e+00, 8.675161362928850650e+00, 2.678739078033977705e+00, 2.558556268784360377e+00, 4.994724492504463598e+00, 1.327862775729181877e+01, -2.495856312791868425e-01, 2.529181427433474738e+00, 7.231615716549431916e+00, 1.862159959325870418e+00, 6.401671845415843887e-01, 4.525614667587228190e+00, 4.778200895829339601e+00, 9.279597970638459259e+00, 2.271103430737858808e+00, 4.544472033223441176e-01, 2.028146648599657098e+00, -2.271711170822251269e+00, 5.521088310341382588e+00, 2.939446587520059051e+00, -9.183105852546469272e-01, 3.980296752842602537e+00, 7.269885813979199973e+00, 5.569779585351504636e+00, 4.922576344472750165e+00, 1.229093899899820652e+00, 9.880170673918327040e+00, 2.607207777595027309e+00, -2.021460132083543471e+00, 2.956274661748527599e+00, 3.870069685086638511e+00, 6.097646403248298874e+00, -1.497666172318467215e+00, 1.821462390978546564e+00, 4.438673769835372873e+00, -2.810406509607580983e+00, 2.517967765961245163e+00, 1.941942323335977383e+00, 5.510594121957039349e+00, -1.290425232008239220e+00, 9.996988130069299316e+00, 3.821944320228553238e+00, 2.501403576563622444e+00, 1.302961131021426411e+00, 6.395202796051122629e-01, 1.105358232201941737e+00, 8.272811001795723485e+00, 1.516800591811991339e+00, 4.484308917330527500e+00, 4.228390978192665628e+00, 3.970241975787784927e-01, 6.235714801969191257e+00, 2.558674211668819698e+00, 7.574958164021925455e+00, 1.117843766563533237e-01, 1.301465253675008205e+00, 1.592849815087934662e+00, 2.615702025590696422e+00, 5.578220939987961202e+00, 6.864033403353951179e+00, 6.343308084137388114e+00, 5.107094398159737203e+00, 2.296548772744600342e+00, 2.987921828267659841e+00, 2.696472153054887411e+00, 2.108667388350385696e+00, 8.440274560269223514e+00, 3.441922799865055449e+00, 2.079575130072129241e+00, 2.582340972391012457e+00, 7.738448886208403543e+00, 3.697074665133969429e+00, 2.319751406641347380e+00, 2.095117312491184158e+00, 3.665665356545077636e+00, 4.507806520516048465e+00, -7.145237152604815734e+00, 5.224433753089873234e-01, 4.227754820874684683e+00, 2.969655878256588277e+00, 4.925778961993629856e+00, 5.039478395292455559e+00, 5.834017365299313695e+00, 5.826136643620646538e+00, 5.163582710530583597e+00, 3.235051507853846875e+00, -5.328506948625223449e-01, 5.476214303848442988e+00, 7.526257366630429324e+00, -8.334524960353959511e-01, 5.364615706671573392e+00, -1.019150578102146376e+00, 6.966143748007669334e-02, 1.230068161541068683e+00, -3.418500009431716169e+00, 2.062095137306835468e+00, 8.320750395107159747e+00, 3.113330384660780936e+00, 6.312382230102574709e+00, 6.189089750227044107e+00, 3.199843894698903402e+00, 3.707644422252717398e+00, 6.445823664690473187e-01, 6.017906258643614947e+00, 2.453686412502520398e+00, -5.058655334149049221e-01, 1.447289729862234697e+00, 5.194935013095157927e+00, 9.634265636559396384e+00, 4.960149517411594822e+00, 4.524262917616239221e+00, 8.495959130976778795e+00, 6.735998750383576095e+00, 1.562930137495726735e+00, 8.846669938451128701e+00, 8.316000024773018140e-01, 2.841518605665034336e+00, 8.452837199383170130e+00, 1.900644766779354455e+00, 3.890778863605465876e+00, 5.134382020109551803e+00, 8.698137239050723224e+00, -4.552442170364663809e+00, 1.301101073988497880e+01, 6.416676802067204921e-01, 1.045312708111001188e+00, 6.576498639942038871e+00, 1.697453017596450398e+00, 3.325847388402330296e+00, 3.824745699265658772e+00, -1.047996945185564632e+00, 9.790802291463311491e+00, 3.182044643322239352e+00, 4.740881946810843850e+00, 4.622517555420909474e+00, -4.366637201156874148e+00, 9.136028105621686990e+00, -3.804605707070021214e-01, -5.552880328949558297e+00, 4.451243603312668995e+00, 7.036115822590744528e+00, 7.944537645466371867e-01, 4.470626358614056883e+00, 6.154153463121865286e+00, 4.015059824432134938e+00, 5.529780377478181741e+00, 3.222480339988340603e-01, -6.971785142660899659e+00, 2.520483496891788633e+00, -1.000727690275857729e+00, 1.509996711438187811e+00, 3.231260216037445510e+00, 4.043283006144131164e+00, 4.293102168388654327e+00, 9.754019165991678619e-01, 2.565146276590477115e+00, -2.800143048947881574e+00, 4.117934805388777875e+00, -3.086766178917026426e+00, -1.528163542112980222e+00, 1.424818335616947040e+00, 3.366760117458165169e+00, 2.754105249785030018e+00, -6.900936298251059142e-01, -3.166729532782969425e+00, -6.199150497051852504e+00, -1.903053346138614321e+00, -6.813809161108226320e+00, 5.019635303556857497e-01, 8.545542983701320594e+00, 5.123091310393087738e+00, -7.869107051162043120e-01, 3.838430183893883019e+00, 9.864751282404192523e+00, 5.281417758318579736e+00, 8.267156656249712299e+00, -5.776870050872584539e-02, 7.471170040498925857e+00, 7.150319945699507684e+00, 1.281080237061506200e+00, 5.942252737792682815e+00, -1.593145002175114344e+00, -2.798020732908530483e-01, 1.100521508268346826e+00, 7.516978726111487319e+00, -9.547265856159068420e-01, 1.909083140898424569e+00, 8.646513956181951954e+00, 6.416440921171778555e+00, 3.578929344503040788e+00, 6.239953178071250051e+00, 4.121498157971556608e+00, -9.200898826685963705e-01, 2.624840926086136506e+00, -1.696394810067997749e+00, -8.479216109790956857e-01, 9.521711379134440989e+00, 7.461296786074795850e-01, 9.884979416143382380e+00, -1.450130520484450125e+00, -9.747632398671495224e-01, 2.397567377177161951e+00, 4.199343773660931589e+00, 6.025362634031925069e+00, 7.374179625089551493e+00, 4.296301167108025787e+00, 3.355237817224323571e+00, 5.428039149686856746e+00, -2.284831903538165676e+00, 4.047698093904356753e+00, -2.763892465987808134e+00, 3.819326344626139402e+00, 9.965939886443315743e+00, 4.747733221116575919e+00, 1.137725540579300620e+01, 4.797672996346218910e-01, 2.908498794025056178e+00, 9.201600775937725629e+00, 7.193894456500890655e+00, -1.695621230073215191e+00, 5.033483253451356276e+00, 1.033749243281202190e+01, 3.947490313023453989e-01, 7.539915440623115028e-01, 3.998203599233174366e+00, 4.185365078976825970e+00, -2.130229518323487170e+00, 5.036801050553588510e+00, -1.705381126920530788e+00, 2.933800709782169225e+00, 2.239742525220647540e+00, -2.316719691560852112e+00, 5.134154614878972289e+00, 7.204610767065776855e+00, -9.875108944949664291e-01, 2.250176595888445874e+00, 5.171173170288827947e+00, 4.475277777533708701e+00, -2.212951449074433974e+00, 7.682167657615692757e-01, -1.444707849410785672e-01, 7.641950427761050157e+00, 8.643423160968783936e-01, 7.627872070342636590e+00, -3.066912312455214895e+00, 1.856966678989829811e+00, -6.178155961468147161e+00, 8.017701855529295596e-01, 1.340337618061955505e+00, 4.119477943754995763e+00, 2.170529528975391642e+00, 4.677188123079975668e+00, 5.752931646538954169e+00, 5.001882721713196034e+00, 3.198602279324567643e+00, -4.934222714988787395e+00, 2.574714690403843598e+00, 2.350749960399007410e+00, -4.160661976722817457e+00, -4.241125873193529738e-01, -4.236748307100361544e+00, -4.513574727965721678e+00, 5.282099609139748964e+00, 3.320787920206448085e+00, -2.096556753896334335e+00, 1.878715954312093039e+00, 3.242495961406701710e+00, 3.376200420961710691e+00, 5.453725796737545206e-01, -4.240600353842120640e+00, 6.665231438272461340e+00, 1.723809987074343519e+00, 4.521199570484693453e+00, -2.034032376005100229e+00, -5.597106651194101445e+00, 1.057927141431942442e+00, 2.263251379353280690e+00, 1.774037927898405531e+00, 2.695496938960541211e+00, 3.828863191867132976e+00, 3.268451590151211228e+00, 1.744773055884915713e+00, -1.711633505181458847e+00, -1.012459924309707882e+00, -2.699126892220644169e+00, 5.405732521025047532e+00, 3.351658964837580079e+00, 3.403680366520066780e+00, 3.850267039346929820e+00, 2.279227979123797709e+00, -1.829158633068100226e+00, -3.094203541250175604e+00, 3.033005456026554025e+00, -3.674167322327917429e+00, -3.684268609222074886e+00, 9.080626272337950056e+00, 2.285702774520783631e+00, 3.120965300376838947e+00, 4.840839600231006123e+00, 1.881291696389946422e+00, 3.494161455074424438e+00, 8.779231651836211014e+00, 7.048948802539729996e+00, -5.515911143661018201e+00, 1.437961504594591045e+00, 3.520447028266902034e+00, -1.445542531786964346e+00, -1.493531557225457496e+00, 7.819982477369373797e+00, 2.289017682640842821e+00, 2.961303703319699387e+00, 7.363644664254337613e+00, -4.352137348040874265e+00, 7.658772299745042034e+00, 7.158594584121500404e+00, 1.053463090856900264e+00, 1.032716511396598591e+00, 4.797608192999314625e+00, 7.414053100231310367e+00, 5.749583217311469596e+00, 4.160627314735531712e+00, 4.372050571100245975e+00, 9.300648424544471382e+00, 6.265664649818058152e+00, -7.851097788413342604e-01, 1.031167287338298166e+01, 2.637729443788590089e+00, 4.320613696804401549e+00, 9.556642344839433534e+00, 1.014845649694589902e+01, 2.570470398387125321e+00, -7.624097312761282108e-01, 5.757548692778680532e+00, -1.937263258666336085e+00, -3.585978919210517368e+00, -2.894427663914312943e-01, -4.198223093677062145e+00, 4.730301416507531442e+00, 9.771068421162382167e-01, 1.025361679263158576e+00, 9.907474778497723733e+00, 3.639584102011426126e+00, 3.011150277303883627e+00, 5.408787251156683240e+00, 1.047899582584318701e+00, -4.140216315421993087e+00, 1.979839642472970063e+00, 2.987958423919357731e+00, 8.543364961313018924e+00, -8.449631732368991788e-01, 1.069692855228760209e+01, -1.136272918546692878e+00, 3.342120030304609024e+00, 9.981313303210155752e+00, -2.589568335324024417e+00, 6.910149181639552829e+00, 1.612730665193348178e+00, 5.697312554523712436e+00, 3.018435617800449222e+00, 1.374503627458368182e+00, -2.843852156448395396e-01, -1.064418643798761943e+00, -9.131410654024085805e-02, 3.986116664844603363e+00, 6.405263328573972181e+00, 5.841075631803684942e+00, 2.341969920514244130e+00, -2.665168018750984302e+00, 6.632599728532301953e+00, -1.356926201742180371e+00, 9.270239964966123125e+00, -6.887046924402170589e+00, 9.515965843841291960e-01, 1.611477239788417393e+01, 5.009661058548454449e+00, 7.096431394402356929e+00, 8.803240966347328111e+00, 1.317761981913962099e+00, -1.107066254247746073e+00, 2.348065893805981297e+00, 3.770507519426428811e+00, 1.494872866514328491e+00, 8.687236790836037059e+00, 8.369325741796751927e+00, 2.132161873951136322e+00, 4.908045800743050524e-01, 9.490360666341624007e-01, 4.340734792667004793e-01, 1.846538896465720780e+00, 1.895799423821499907e+00, 2.825191517563092169e+00, -2.211683658599367774e+00, 2.961394255064001002e-01, 3.407154704239185428e+00, 6.044213924589466380e+00, 7.479348775076431366e+00, 6.016829919821669925e+00, 8.179713258385778119e+00, 6.223329095389185106e-01, -3.624050568819656704e+00, 5.824919561145834201e+00, 5.090666212956813652e+00, 7.565383221902518329e+00, 4.761764154754598799e+00, 4.116467548325920767e+00, 1.008224378918701758e+00, 2.091842396270044979e+00, 5.956500015222985667e+00, 1.395801258070586526e+00, 5.572523678631976729e+00, -1.059553217764399946e+01, -1.959961502849866699e+00, 1.078428327563905054e+00, 1.182552288488031067e+01, -3.013332290674674674e+00, 7.550310848393735341e-01, 5.995096832039864765e+00, -1.601395622028575660e+00, 1.515486299618315824e+00, 6.300492469947601037e+00, 4.486768818306967610e+00, 4.833090884760207651e+00, -3.338376541335327241e-01, -4.542110608387928572e+00, 5.982241710582304250e+00, 6.143944289891425825e+00, -1.078183403541281216e+01, 9.617033950206554938e-01, 7.824429337870105527e+00, 1.055513945890947936e+00, 6.789261420507883393e+00, 2.734666156901293110e-01, 9.714346552026775772e-01, -1.137447373053399380e+00, 1.028048212219797808e+00, -4.367429898266379951e+00, 1.054667397843256582e+00, 2.194379341163649855e+00, 4.747356913161770997e+00, 1.692374592302203551e+00, -5.873758654220326392e+00, -4.617599945709383924e+00, -2.645914256888156402e+00, -5.264245323671515209e+00, 4.475857209747019283e+00, 3.230187033608216574e+00, 2.153695493271034156e+00, -1.612237389790376341e+00, 8.636950666872740712e+00, 2.461975528954447157e+00, 2.224600829424769444e+00, 6.581649176713906257e-01, 2.729413481880147874e+00, -3.268917905087452169e+00, -1.813558409840377417e+00, 6.336674485276887481e+00, -1.389399237182006530e+00, -3.392296418303076599e+00, -1.519252171771573678e+00, 4.348074415764127565e+00, -1.550813867651923639e+00, -4.728514888531808680e+00, 4.593868577541191378e+00, -2.695076443218853424e-01, -2.466472251021786466e+00, 5.015162454033626815e+00, 1.280989588968574289e+00, -2.987733445945535138e-01, 3.826569657188835016e+00, 7.872211731902483578e+00, -3.063741418253487225e-01, 1.932385274112666584e+00, -1.711565094009069865e+00, 3.290237349923468724e+00, 9.300027533868023610e+00, -1.218854655842863233e+00, 2.394518134789579200e+00, -1.829403908140499579e+00, 6.441940998356502135e+00, 5.261692376006884331e+00, -1.471690327075256377e+00, 4.136641925349778148e+00, 7.748435539516355774e+00, 3.709824090257329843e-02, 4.365095764774031828e+00, 8.420171370913573483e+00, 2.020887046312681790e+00, 5.231642472729107318e+00, 2.330957941723578841e+00, -7.133786455179746966e-01, 2.027091730082122290e+00, 3.283776215549077282e+00, 2.517980680352142286e+00, -5.182389517624226727e+00, 8.522032044632810610e+00, -2.861954386388155580e+00, 1.150910853227706809e+01, 1.257664676453693842e+00, -2.529136036115605002e+00, 4.697511678517307665e+00, 4.697098797079126697e+00, 4.931468044056459554e+00, 3.024138977528133543e-01, 7.315741529441233126e+00, 2.686318196752661702e-01, 9.669034580991501926e+00, 4.616485416839378075e+00, -3.894634034260579192e+00, -1.378202111667693908e+00, 1.724450104830581365e+00, 2.830724598242235324e+00, -3.021845395394191947e+00, 5.565168158870735127e+00, -3.802742062860953176e+00, 2.422240804476755827e+00, 1.996950249462677629e+00, -9.498196155399503127e-01, 6.000218124039431444e+00, 4.160456503944740092e+00, -8.527506538243763146e+00, 4.857719386368529513e+00, 5.767780200868257268e+00, 1.482631516202137512e-02, 7.301000379671655161e+00, 2.199272634789846137e+00, -1.023795091521911171e+00, 9.446787706478435354e+00, 4.103968014602854097e+00, 2.252393257082382583e+00, -1.710621282801195298e+00, 9.570530119219700538e+00, -9.031506021314461563e-02, 2.717474986170409057e+00, 6.702849307630584619e+00, -7.728632921768832098e-01, 8.794104028254838834e-01, -1.908494060797930381e+00, 4.303136506625190982e+00, 5.659683632337555004e+00, 9.421839125046522767e+00, 1.055227859823538061e+01, 3.606288655762706519e+00, 1.885440671113563393e+00, -6.682739031785624562e+00, 5.227760160770253073e+00, 8.361308588618289184e-01, 3.021116671533744302e+00, -9.021521003248370363e+00, 1.095585330716443151e+00, 3.739296369926359276e+00, 1.097633905605435878e+01, 8.400262888165981323e-01, 1.340938820820316790e+00, 6.517440166654201228e+00, 7.249820436577214977e+00, 7.645242208387179161e+00, 2.173035911236250950e+00, -3.285588763463604511e+00, -2.254004474472093733e+00, 6.496895996428624365e+00, -6.182493421210564222e-01, -1.187846745752686672e+00, 6.503532165091496786e+00, 4.455196947019969045e+00, 6.526803418331668105e+00, 1.925229544536446458e+00, 8.365070380379469484e+00, -5.390347366057053335e-01, -2.322474085954577827e-01, 4.577283622834713128e+00, -2.553600067690717346e+00, 5.308744401806363200e+00, 6.713398553877674146e+00, 3.935627014071251928e+00, 5.689426262795267419e-01, 4.796758784955143184e+00, -4.893805485969122682e-01, 1.275459508384613638e+00, 3.160575599847336825e+00, -4.779625852329703939e+00, 3.449404901373577026e+00, 6.366796997153034710e-02, 9.760609526356291976e-01, 2.834961463988206809e+00, 6.964576932692425615e+00, 1.956701513663777758e+00, 5.484401737961944967e+00, 7.346568997469368867e+00, -6.024364353555540674e+00, -1.368853059591071508e+00, 7.704248628259033893e+00, 2.766929243681624406e+00, 5.925390326401930530e+00, 4.804043148098846583e-01, -3.918543096459814912e+00, 2.602358403247214458e+00, 6.597895901964735188e+00, -4.309791242593538740e+00, 8.256934552660354143e+00, 3.804210758790925961e+00, 5.089232030076300539e+00, 8.245553165690553854e+00, 6.311985346808477004e+00, -4.300481415512095396e+00, 1.054839326207186456e+00, 1.312518278818792794e-01, 3.271903280538958292e+00, 1.858121626139392690e+00, 9.990427124127158720e+00, -1.164786011607684690e+00, -3.238948938537119737e+00, -1.078127640990316216e+00, 6.396313505829236412e+00, 9.209190890303085908e+00, -1.079727356406910310e+00, 3.706126400797289389e-01, 2.359698033899000791e+00, -6.722003548691462882e+00, -1.049586579713105206e+00, 4.181027056820849630e+00, 5.979713572400473964e+00, -2.291531711940021587e+00, 1.763070167475505823e+00, 8.343239989749740015e-01, -4.723749582672430058e+00, 1.107857861393430277e+01, 4.459731537037763260e+00, 8.031603386096719532e-01, 2.462580471503881707e+00, 7.234009674248007116e+00, -1.881389505993071642e+00, 5.302274454481997523e+00, 1.932544497145885609e+00, -8.692661174103744059e+00, -3.427969700694187161e+00, 1.140417490941231904e+01, 4.169495070136393977e+00, 2.854663298323512066e+00, 2.851904328747847384e+00, 4.179028265372461526e+00, 3.424257382672094785e+00, 1.760972113368010739e+00, -2.566984644143683880e+00, 3.834149212256774852e+00, 3.614066171912647896e+00, 6.025753663828231410e+00, 5.083529559584115454e+00, 7.381619562443004767e+00, 2.035640628649814765e+00, 9.767781851042379726e-01, -1.873221437699331471e+00, 5.569716120662715930e+00, 1.541795701143366060e+00, -1.247859313534936732e+00, 8.239838012442886495e+00, 6.085372671438256553e+00, -4.701806642827315308e-01, 5.313503866127330610e+00, 1.176293895799561895e+00, 5.791750230873230265e+00, 6.662979044600349177e+00, 2.938892673409957190e+00, 6.956912420976649969e+00, 7.259799780925175750e-01, -6.233173079728245192e+00, 9.551086759436344664e-01, 3.823801196248983736e+00, 2.161957323270656595e+00, 1.908796941495796151e-01, -1.321229405475324858e+00, 1.881788902104439831e-01, 5.011433639559429665e+00, 1.362490081021603405e-01, 8.423455453283478889e+00, 8.204956193609501014e+00, 3.056773296686151831e+00, -1.352679418235741116e+00, 7.709469102151834008e+00, 2.820400281269132670e+00, -5.302663698084786326e-02, -3.607459319820029098e+00, -3.034507823137405413e+00, 5.550020538432481887e-01, 4.035303346427905780e+00, 8.125389633111041121e+00, -2.590998616842672853e+00, 9.168920426283438951e-01, 7.461924841427982624e-01, 1.119759387784569604e+01, 3.265941618835306759e+00, 1.756030687496136222e+00, 2.461261694902165065e+00, 8.453526212239681925e+00, 2.616953587260117953e-01, 3.433011660374789553e-01, -1.830065418639827968e-01, 3.138181973343944442e+00, -3.514951697203741787e+00, 5.268691535259421244e+00, -3.021843761034102016e+00, 2.948378195113915190e+00, 2.664871429647722945e+00, -5.966807550658374204e+00, 9.955248911968415104e-01, -6.781255421566925179e+00, -2.598537949465104191e+00, 4.509919526952707258e+00, 7.464034481254198106e-01, -1.178589056254136347e+00, 8.166676588542470583e+00, -1.022112971940333459e+00, 5.559856838618985719e+00, 1.296537327272013984e+00, 7.933454938648537569e-01, 5.730941024200597589e-02, 1.035664336804291175e+01, 8.879644756450444376e+00, 2.709496273492302265e+00, 1.103203746555234055e+01, -5.025712224360843194e+00, 9.140136420113419646e+00, 2.445489973173192055e+00, 3.786178690823461146e+00, 2.646097830075248680e+00, 5.527378548329370922e+00, 2.886393957163420065e+00, 5.008639576904723612e+00, -1.798263467644335423e+00, 3.621092907836421126e+00};
idxint num_err_Gjc[1201] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378, 379, 380, 381, 382, 383, 384, 385, 386, 387, 388, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 436, 437, 438, 439, 440, 441, 442, 443, 444, 445, 446, 447, 448, 449, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763, 764, 765, 766, 767, 768, 769, 770, 771, 772, 773, 774, 775, 776, 777, 778, 779, 780, 781, 782, 783, 784, 785, 786, 787, 788, 789, 790, 791, 792, 793, 794, 795, 796, 797, 798, 799, 800, 801, 802, 803, 804, 805, 806, 807, 808, 809, 810, 811, 812, 813, 814, 815, 816, 817, 818, 819, 820, 821, 822, 823, 824, 825, 826, 827, 828, 829, 830, 831, 832, 833, 834, 835, 836, 837, 838, 839, 840, 841, 842, 843, 844, 845, 846, 847, 848, 849, 850, 851, 852, 853, 854, 855, 856, 857, 858, 859, 860, 861, 862, 863, 864, 865, 866, 867, 868, 869, 870, 871, 872, 873, 874, 875, 876, 877, 878, 879, 880, 881, 882, 883, 884, 885, 886, 887, 888, 889, 890, 891, 892, 893, 894, 895, 896, 897, 898, 899, 900, 901, 902, 903, 904, 905, 906, 907, 908, 909, 910, 911, 912, 913, 914, 915, 916, 917, 918, 919, 920, 921, 922, 923, 924, 925, 926, 927, 928, 929, 930, 931, 932, 933, 934, 935, 936, 937, 938, 939, 940, 941, 942, 943, 944, 945, 946, 947, 948, 949, 950, 951, 952, 953, 954, 955, 956, 957, 958, 959, 960, 961, 962, 963, 964, 965, 966, 967, 968, 969, 970, 971, 972, 973, 974, 975, 976, 977, 978, 979, 980, 981, 982, 983, 984, 985, 986, 987, 988, 989, 990, 991, 992, 993, 994, 995, 996, 997, 998, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 1029, 1030, 1031, 1032, 1033, 1034, 1035, 1036, 1037, 1038, 1039, 1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103, 1104, 1105, 1106, 1107, 1108, 1109, 1110, 1111, 1112, 1113, 1114, 1115, 1116, 1117, 1118, 1119, 1120, 1121, 1122, 1123, 1124, 1125, 1126, 1127, 1128, 1129, 1130, 1131, 1132, 1133, 1134, 1135, 1136, 1137, 1138, 1139, 1140, 1141, 1142, 1143, 1144, 1145, 1146, 1147, 1148, 1149, 1150, 1151, 1152, 1153, 1154, 1155, 1156, 1157, 1158, 1159, 1160, 1161, 1162, 1163, 1164, 1165, 1166, 1167, 1168, 1169, 1170, 1171, 1172, 1173, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 1181, 1182, 1183, 1184, 1185, 1186, 1187, 1188, 1189, 1190, 1191, 1192, 1193, 1194, 1195, 1196, 1197, 1198, 1199, 1200};
idxint num_err_Gir[1200] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378, 379, 380, 381, 382, 383, 384, 385, 386, 387, 388, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 436, 437, 438, 439, 440, 441, 442, 443, 444, 445, 446, 447, 448, 449, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763, 764, 765, 766, 767, 768, 769, 770, 771, 772, 773, 774, 775, 776, 777, 778, 779, 780, 781, 782, 783, 784, 785, 786, 787, 788, 789, 790, 791, 792, 793, 794, 795, 796, 797, 798, 799, 800, 801, 802, 803, 804, 805, 806, 807, 808, 809, 810, 811, 812, 813, 814, 815, 816, 817, 818, 819, 820, 821, 822, 823, 824, 825, 826, 827, 828, 829, 830, 831, 832, 833, 834, 835, 836, 837, 838, 839, 840, 841, 842, 843, 844, 845, 846, 847, 848, 849, 850, 851, 852, 853, 854, 855, 856, 857, 858, 859, 860, 861, 862, 863, 864, 865, 866, 867, 868, 869, 870, 871, 872, 873, 874, 875, 876, 877, 878, 879, 880, 881, 882, 883, 884, 885, 886, 887, 888, 889, 890, 891, 892, 893, 894, 895, 896, 897, 898, 899, 900, 901, 902, 903, 904, 905, 906, 907, 908, 909, 910, 911, 912, 913, 914, 915, 916, 917, 918, 919, 920, 921, 922, 923, 924, 925, 926, 927, 928, 929, 930, 931, 932, 933, 934, 935, 936, 937, 938, 939, 940, 941, 942, 943, 944, 945, 946, 947, 948, 949, 950, 951, 952, 953, 954, 955, 956, 957, 958, 959, 960, 961, 962, 963, 964, 965, 966, 967, 968, 969, 970, 971, 972, 973, 974, 975, 976, 977, 978, 979, 980, 981, 982, 983, 984, 985, 986, 987, 988, 989, 990, 991, 992, 993, 994, 995, 996, 997, 998, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 1029, 1030, 1031, 1032, 1033, 1034, 1035, 1036, 1037, 1038, 1039, 1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103, 1104, 1105, 1106, 1107, 1108, 1109, 1110, 1111, 1112, 1113, 1114, 1115, 1116, 1117, 1118, 1119, 1120, 1121, 1122, 1123, 1124, 1125, 1126, 1127, 1128, 1129, 1130, 1131, 1132, 1133, 1134, 1135, 1136, 1137, 1138, 1139, 1140, 1141, 1142, 1143, 1144, 1145, 1146, 1147, 1148, 1149, 1150, 1151, 1152, 1153, 1154, 1155, 1156, 1157, 1158, 1159, 1160, 1161, 1162, 1163, 1164, 1165, 1166, 1167, 1168, 1169, 1170, 1171, 1172, 1173, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 1181, 1182, 1183, 1184, 1185, 1186, 1187, 1188, 1189, 1190, 1191, 1192, 1193, 1194, 1195, 1196, 1197, 1198, 1199};
pfloat num_err_Gpr[1200] = {1.000000000000002442e+00, 1.000000000000001998e+00, 9.999999999999972244e-01, 1.000000000000000666e+00, 9.999999999999994449e-01, 9.999999999999995559e-01, 1.000000000000000444e+00, 1.000000000000000666e+00, 1.000000000000001554e+00, 1.000000000000000666e+00, 1.000000000000000666e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000001776e+00, 1.000000000000001110e+00, 1.000000000000001554e+00, 1.000000000000000222e+00, 1.000000000000001776e+00, 9.999999999999992228e-01, 1.000000000000002887e+00, 1.000000000000001554e+00, 1.000000000000000222e+00, 1.000000000000001554e+00, 1.000000000000001332e+00, 9.999999999999998890e-01, 9.999999999999997780e-01, 1.000000000000001110e+00, 1.000000000000001110e+00, 1.000000000000000222e+00, 1.000000000000001776e+00, 1.000000000000001776e+00, 9.999999999999985567e-01, 1.000000000000001554e+00, 9.999999999999997780e-01, 1.000000000000001554e+00, 1.000000000000001998e+00, 1.000000000000000000e+00, 1.000000000000001554e+00, 1.000000000000000666e+00, 1.000000000000001776e+00, 1.000000000000000444e+00, 1.000000000000001998e+00, 9.999999999999995559e-01, 9.999999999999983347e-01, 1.000000000000002665e+00, 9.999999999999993339e-01, 1.000000000000002442e+00, 1.000000000000000444e+00, 1.000000000000000666e+00, 1.000000000000001776e+00, 9.999999999999998890e-01, 1.000000000000001776e+00, 1.000000000000001110e+00, 1.000000000000002442e+00, 9.999999999999978906e-01, 1.000000000000001998e+00, 9.999999999999977796e-01, 1.000000000000000888e+00, 9.999999999999998890e-01, 9.999999999999994449e-01, 1.000000000000002887e+00, 1.000000000000000222e+00, 1.000000000000001110e+00, 1.000000000000000222e+00, 1.000000000000001776e+00, 9.999999999999997780e-01, 1.000000000000001554e+00, 1.000000000000001554e+00, 1.000000000000001776e+00, 1.000000000000001554e+00, 9.999999999999985567e-01, 1.000000000000001554e+00, 1.000000000000001332e+00, 1.000000000000001554e+00, 1.000000000000000000e+00, 1.000000000000002442e+00, 1.000000000000001554e+00, 1.000000000000000666e+00, 1.000000000000000444e+00, 1.000000000000000444e+00, 1.000000000000001776e+00, 9.999999999999966693e-01, 9.999999999999980016e-01, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000444e+00, 1.000000000000001554e+00, 1.000000000000001332e+00, 1.000000000000001554e+00, 1.000000000000000444e+00, 1.000000000000001776e+00, 1.000000000000000222e+00, 1.000000000000001332e+00, 1.000000000000001776e+00, 1.000000000000001554e+00, 1.000000000000000444e+00, 1.000000000000000222e+00, 1.000000000000001776e+00, 1.000000000000002442e+00, 9.999999999999986677e-01, 1.000000000000001554e+00, 1.000000000000000666e+00, 9.999999999999997780e-01, 1.000000000000001776e+00, 1.000000000000001110e+00, 1.000000000000001776e+00, 1.000000000000001554e+00, 9.999999999999995559e-01, 9.999999999999985567e-01, 1.000000000000001776e+00, 9.999999999999998890e-01, 1.000000000000000222e+00, 1.000000000000000444e+00, 9.999999999999995559e-01, 1.000000000000001776e+00, 1.000000000000000888e+00, 1.000000000000000888e+00, 1.000000000000002442e+00, 1.000000000000000888e+00, 1.000000000000001554e+00, 1.000000000000001776e+00, 9.999999999999968914e-01, 1.000000000000001776e+00, 1.000000000000002220e+00, 1.000000000000000222e+00, 1.000000000000002220e+00, 1.000000000000001554e+00, 1.000000000000000222e+00, 1.000000000000000444e+00, 9.999999999999998890e-01, 1.000000000000000444e+00, 9.999999999999988898e-01, 1.000000000000001554e+00, 1.000000000000001554e+00, 1.000000000000001110e+00, 1.000000000000000888e+00, 1.000000000000002442e+00, 1.000000000000000222e+00, 1.000000000000001998e+00, 9.999999999999990008e-01, 1.000000000000000666e+00, 1.000000000000001776e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000004663e+00, 9.999999999999995559e-01, 9.999999999999995559e-01, 1.000000000000001776e+00, 1.000000000000000888e+00, 1.000000000000001332e+00, 9.999999999999996669e-01, 1.000000000000000222e+00, 9.999999999999972244e-01, 1.000000000000001110e+00, 1.000000000000001554e+00, 1.000000000000002442e+00, 1.000000000000001998e+00, 1.000000000000001776e+00, 1.000000000000001554e+00, 1.000000000000001998e+00, 9.999999999999990008e-01, 1.000000000000002220e+00, 1.000000000000000888e+00, 1.000000000000000666e+00, 1.000000000000001554e+00, 1.000000000000001554e+00, 1.000000000000000888e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000888e+00, 1.000000000000001776e+00, 1.000000000000000444e+00, 1.000000000000001332e+00, 1.000000000000001776e+00, 1.000000000000003553e+00, 9.999999999999987788e-01, 1.000000000000000888e+00, 1.000000000000001110e+00, 9.999999999999990008e-01, 9.999999999999990008e-01, 9.999999999999995559e-01, 1.000000000000001776e+00, 1.000000000000001554e+00, 1.000000000000001776e+00, 9.999999999999998890e-01, 1.000000000000001554e+00, 1.000000000000002220e+00, 9.999999999999998890e-01, 9.999999999999967804e-01, 1.000000000000001554e+00, 1.000000000000001998e+00, 1.000000000000000444e+00, 1.000000000000000222e+00, 9.999999999999998890e-01, 9.999999999999978906e-01, 1.000000000000002220e+00, 9.999999999999974465e-01, 1.000000000000001776e+00, 1.000000000000001776e+00, 1.000000000000000222e+00, 9.999999999999988898e-01, 1.000000000000001776e+00, 1.000000000000001776e+00, 9.999999999999997780e-01, 1.000000000000001110e+00, 9.999999999999994449e-01, 1.000000000000001776e+00, 1.000000000000000222e+00, 1.000000000000000444e+00, 9.999999999999984457e-01, 9.999999999999993339e-01, 1.000000000000002665e+00, 1.000000000000002887e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000888e+00, 1.000000000000001776e+00, 1.000000000000001554e+00, 9.999999999999986677e-01, 1.000000000000000222e+00, 9.999999999999956701e-01, 1.000000000000001776e+00, 1.000000000000001554e+00, 9.999999999999998890e-01, 1.000000000000001110e+00, 1.000000000000001554e+00, 9.999999999999997780e-01, 1.000000000000001776e+00, 1.000000000000001554e+00, 1.000000000000000888e+00, 9.999999999999997780e-01, 9.999999999999994449e-01, 1.000000000000001998e+00, 1.000000000000000666e+00, 1.000000000000000888e+00, 9.999999999999980016e-01, 1.000000000000001332e+00, 1.000000000000001776e+00, 1.000000000000001776e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000001554e+00, 1.000000000000001776e+00, 1.000000000000001998e+00, 1.000000000000000222e+00, 1.000000000000000888e+00, 1.000000000000001110e+00, 1.000000000000001554e+00, 9.999999999999994449e-01, 1.000000000000001554e+00, 1.000000000000001554e+00, 9.999999999999972244e-01, 1.000000000000001998e+00, 1.000000000000000222e+00, 1.000000000000001776e+00, 1.000000000000000444e+00, 1.000000000000004885e+00, 1.000000000000001998e+00, 1.000000000000001554e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000001998e+00, 1.000000000000000666e+00, 1.000000000000001776e+00, 1.000000000000001776e+00, 9.999999999999993339e-01, 9.999999999999998890e-01, 1.000000000000001998e+00, 1.000000000000000222e+00, 1.000000000000001776e+00, 1.000000000000002442e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000888e+00, 9.999999999999994449e-01, 1.000000000000000444e+00, 1.000000000000001776e+00, 1.000000000000001998e+00, 9.999999999999985567e-01, 9.999999999999987788e-01, 1.000000000000001554e+00, 1.000000000000001554e+00, 1.000000000000001776e+00, 1.000000000000000222e+00, 1.000000000000000444e+00, 1.000000000000000222e+00, 1.000000000000001998e+00, 1.000000000000001554e+00, 1.000000000000001776e+00, 1.000000000000001776e+00, 1.000000000000001554e+00, 1.000000000000001998e+00, 1.000000000000000444e+00, 9.999999999999977796e-01, 1.000000000000001554e+00, 1.000000000000001776e+00, 9.999999999999995559e-01, 1.000000000000001776e+00, 1.000000000000000888e+00, 1.000000000000001776e+00, 1.000000000000001776e+00, 1.000000000000000222e+00, 1.000000000000000444e+00, 9.999999999999984457e-01, 1.000000000000001998e+00, 1.000000000000001554e+00, 1.000000000000001776e+00, 1.000000000000000444e+00, 9.999999999999983347e-01, 1.000000000000001554e+00, 1.000000000000000000e+00, 1.000000000000002220e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 9.999999999999983347e-01, 1.000000000000001110e+00, 1.000000000000001110e+00, 1.000000000000001776e+00, 1.000000000000001998e+00, 9.999999999999987788e-01, 1.000000000000001554e+00, 1.000000000000002220e+00, 1.000000000000000222e+00, 9.999999999999986677e-01, 1.000000000000001554e+00, 1.000000000000001776e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000001998e+00, 1.000000000000000000e+00, 9.999999999999992228e-01, 1.000000000000001110e+00, 1.000000000000001110e+00, 1.000000000000001110e+00, 1.000000000000000222e+00, 1.000000000000000888e+00, 1.000000000000000888e+00, 1.000000000000000444e+00, 1.000000000000001554e+00, 1.000000000000001554e+00, 1.000000000000001554e+00, 1.000000000000001776e+00, 9.999999999999998890e-01, 1.000000000000001554e+00, 1.000000000000001554e+00, 9.999999999999986677e-01, 1.000000000000001776e+00, 1.000000000000001110e+00, 9.999999999999983347e-01, 1.000000000000000666e+00, 1.000000000000000000e+00, 9.999999999999996669e-01, 9.999999999999990008e-01, 1.000000000000002887e+00, 1.000000000000001776e+00, 9.999999999999984457e-01, 1.000000000000001776e+00, 1.000000000000001776e+00, 1.000000000000000888e+00, 9.999999999999998890e-01, 1.000000000000002220e+00, 1.000000000000000666e+00, 1.000000000000001554e+00, 9.999999999999983347e-01, 1.000000000000001998e+00, 1.000000000000001332e+00, 1.000000000000001110e+00, 1.000000000000000444e+00, 1.000000000000000888e+00, 9.999999999999998890e-01, 1.000000000000000222e+00, 1.000000000000000444e+00, 1.000000000000001998e+00, 9.999999999999997780e-01, 1.000000000000003331e+00, 9.999999999999993339e-01, 1.000000000000001998e+00, 1.000000000000001110e+00, 1.000000000000002220e+00, 1.000000000000000444e+00, 1.000000000000001332e+00, 1.000000000000001554e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 9.999999999999992228e-01, 1.000000000000000888e+00, 9.999999999999996669e-01, 1.000000000000001776e+00, 9.999999999999987788e-01, 1.000000000000002665e+00, 1.000000000000000444e+00, 1.000000000000001332e+00, 9.999999999999995559e-01, 1.000000000000000666e+00, 1.000000000000000444e+00, 1.000000000000000888e+00, 1.000000000000001998e+00, 9.999999999999992228e-01, 1.000000000000000222e+00, 9.999999999999994449e-01, 1.000000000000000222e+00, 1.000000000000000444e+00, 1.000000000000000222e+00, 1.000000000000001554e+00, 1.000000000000001998e+00, 9.999999999999997780e-01, 1.000000000000000444e+00, 1.000000000000000888e+00, 9.999999999999988898e-01, 1.000000000000000444e+00, 1.000000000000000222e+00, 9.999999999999957812e-01, 1.000000000000001554e+00, 1.000000000000001554e+00, 9.999999999999990008e-01, 1.000000000000001776e+00, 1.000000000000001998e+00, 1.000000000000000222e+00, 1.000000000000001554e+00, 1.000000000000000222e+00, 1.000000000000001554e+00, 1.000000000000000222e+00, 1.000000000000001998e+00, 1.000000000000001776e+00, 9.999999999999985567e-01, 1.000000000000001776e+00, 9.999999999999983347e-01, 1.000000000000001110e+00, 1.000000000000001554e+00, 9.999999999999986677e-01, 1.000000000000001998e+00, 1.000000000000001554e+00, 1.000000000000000666e+00, 1.000000000000000444e+00, 1.000000000000001998e+00, 1.000000000000001776e+00, 9.999999999999986677e-01, 9.999999999999985567e-01, 9.999999999999992228e-01, 9.999999999999995559e-01, 1.000000000000001332e+00, 1.000000000000001554e+00, 1.000000000000000222e+00, 1.000000000000001110e+00, 1.000000000000001110e+00, 1.000000000000001554e+00, 9.999999999999995559e-01, 1.000000000000001776e+00, 1.000000000000001776e+00, 1.000000000000001998e+00, 1.000000000000001998e+00, 1.000000000000001554e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000666e+00, 1.000000000000001110e+00, 1.000000000000001776e+00, 1.000000000000001554e+00, 1.000000000000000888e+00, 1.000000000000000888e+00, 1.000000000000000444e+00, 1.000000000000000888e+00, 1.000000000000000444e+00, 1.000000000000001554e+00, 1.000000000000001554e+00, 9.999999999999995559e-01, 1.000000000000000888e+00, 1.000000000000002887e+00, 9.999999999999985567e-01, 9.999999999999992228e-01, 1.000000000000001998e+00, 1.000000000000000444e+00, 1.000000000000000888e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000001998e+00, 1.000000000000000222e+00, 1.000000000000001110e+00, 1.000000000000001110e+00, 1.000000000000001110e+00, 1.000000000000000222e+00, 1.000000000000001554e+00, 1.000000000000003553e+00, 1.000000000000001998e+00, 9.999999999999998890e-01, 1.000000000000001776e+00, 1.000000000000000444e+00, 1.000000000000001554e+00, 1.000000000000001554e+00, 1.000000000000000444e+00, 1.000000000000000444e+00, 1.000000000000001776e+00, 1.000000000000000222e+00, 1.000000000000000444e+00, 1.000000000000000888e+00, 1.000000000000001776e+00, 1.000000000000001998e+00, 1.000000000000000888e+00, 9.999999999999984457e-01, 1.000000000000000222e+00, 1.000000000000001554e+00, 9.999999999999997780e-01, 1.000000000000000666e+00, 9.999999999999982236e-01, 1.000000000000002665e+00, 1.000000000000001776e+00, 1.000000000000000444e+00, 1.000000000000001776e+00, 1.000000000000000888e+00, 1.000000000000000444e+00, 1.000000000000000222e+00, 1.000000000000001776e+00, 9.999999999999988898e-01, 1.000000000000001776e+00, 1.000000000000001110e+00, 9.999999999999997780e-01, 1.000000000000001554e+00, 1.000000000000001110e+00, 9.999999999999995559e-01, 1.000000000000001776e+00, 1.000000000000001554e+00, 1.000000000000001110e+00, 1.000000000000001110e+00, 1.000000000000000222e+00, 1.000000000000001998e+00, 1.000000000000001776e+00, 9.999999999999964473e-01, 1.000000000000001554e+00, 1.000000000000000222e+00, 1.000000000000002220e+00, 1.000000000000001776e+00, 1.000000000000001776e+00, 9.999999999999970024e-01, 1.000000000000000888e+00, 1.000000000000001776e+00, 1.000000000000001554e+00, 1.000000000000000444e+00, 1.000000000000000222e+00, 1.000000000000001554e+00, 1.000000000000001554e+00, 1.000000000000000222e+00, 1.000000000000000444e+00, 1.000000000000000666e+00, 1.000000000000001110e+00, 1.000000000000001110e+00, 1.000000000000000444e+00, 9.999999999999987788e-01, 1.000000000000002665e+00, 1.000000000000001998e+00, 9.999999999999987788e-01, 9.999999999999994449e-01, 1.000000000000001554e+00, 9.999999999999998890e-01, 1.000000000000001554e+00, 1.000000000000000444e+00, 1.000000000000001776e+00, 1.000000000000002665e+00, 9.999999999999997780e-01, 9.999999999999995559e-01, 1.000000000000000888e+00, 1.000000000000000444e+00, 1.000000000000001998e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000001776e+00, 1.000000000000002220e+00, 1.000000000000000666e+00, 9.999999999999997780e-01, 1.000000000000001776e+00, 1.000000000000000222e+00, 9.999999999999992228e-01, 1.000000000000000444e+00, 1.000000000000001776e+00, 9.999999999999987788e-01, 9.999999999999995559e-01, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000444e+00, 1.000000000000001998e+00, 1.000000000000001776e+00, 9.999999999999986677e-01, 1.000000000000001776e+00, 1.000000000000001332e+00, 9.999999999999977796e-01, 1.000000000000000222e+00, 1.000000000000001998e+00, 1.000000000000001110e+00, 1.000000000000000000e+00, 1.000000000000001554e+00, 1.000000000000001332e+00, 1.000000000000000000e+00, 1.000000000000001998e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000001776e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00};
pfloat num_err_h[1200] = {1.950807566114947100e+00, 1.355234199572721732e+00, 1.742754210080692978e+00, 2.287169940953704128e-01, -4.315073180253568563e-01, -2.009777054382896555e+00, 3.497558700636993478e+00, -4.279393008029257484e-01, 2.314696469375343568e-01, 2.913665363936894792e+00, 8.184078876724516505e-01, 1.625815438966935478e+00, 4.217778529173180857e+00, -4.478060429665712938e+00, 5.121159971239568343e-01, 1.406588666595006476e+00, 9.685246114920584848e-01, -4.521502076145423321e-01, 8.987374581466687218e-01, -2.408964633566159197e+00, 1.902111692560233547e-01, 1.349359183001753060e+00, -2.148529921646414653e+00, 1.342400029963313646e+00, 1.935522819521030780e+00, -2.345765334194959140e-01, -8.245614503163990472e-01, 2.098298377227144407e+00, 2.862448701294208475e-01, 1.042007709584562347e+00, 1.336893613366076927e+00, 1.196040727214341542e-01, 9.945932655710805204e-01, 2.230240591473532152e+00, 5.200735353315379950e-01, -3.102303796919221313e+00, 2.590586740475986360e+00, -3.386237855691949794e-01, -4.319269478094264203e-01, 4.223960134845610170e-01, 7.849624047316197673e-02, -4.813172656807351846e-01, 9.360633606961744624e-01, 2.784964662156642845e+00, 1.076893731275913035e-01, 2.341024963470405229e+00, 2.366497522652023733e+00, -2.343088171194530389e+00, 3.119436593313127837e+00, -1.001925907454616738e+00, -6.719373716502704541e-01, 3.793460089502789234e+00, -3.532786131804167007e-01, 5.996588912167424290e-01, 1.796745511631682390e+00, -5.397161341127051370e-01, -6.337919057343998075e-01, 1.765723123590056121e+00, -2.725906409563834565e+00, -1.450039338728627003e+00, 1.865783453384108226e+00, 2.915247355775990590e-01, -1.840444367974908957e+00, 9.651144248645106005e-01, -1.107258697111776380e+00, -6.278521579211273629e-01, 4.296207077087021098e+00, 5.684575558726741029e-01, 2.482185840586615400e-01, 1.794339942517071851e+00, 1.521770716230638421e+00, -8.199843786435897508e-01, 1.742021207838208241e+00, 2.688012929887612090e-02, -1.995294572958321577e+00, 2.645176394807197351e+00, -6.523572930976409001e-01, -8.690562800938377297e-01, 1.805406718584853021e+00, 1.838089654623507929e+00, -3.977773748500482487e+00, 4.395833001185347477e-01, -4.886542113195067594e-01, -2.139286815014843079e-01, 2.423839408823879271e+00, 2.003195367581524611e+00, -3.618007555376089535e+00, 2.587282263371203150e+00, -2.056010285505818658e+00, -6.525884345168260214e-01, 4.001719748702123880e+00, 1.500115787944060752e-01, 8.950744812516659987e-01, 2.824227924311003779e+00, -3.640895399063803772e-02, -1.116004405846682479e+00, 2.192887957279153088e+00, 1.549872416979197753e+00, -4.557735638163916692e-01, 5.612494965688886728e-01, 6.092862344676148734e-01, -5.507039536472633223e-01, 2.427776408544866538e+00, 1.222295307243488338e+00, 3.094750770718128763e+00, 3.906223736155679749e+00, -3.982454936250116706e+00, -4.755174533175643425e-02, 1.428875722453010422e+00, -1.843209429334410121e+00, -5.399667226812111531e-01, 3.007351261470048609e+00, 8.413589515240913475e-01, 7.508474651239613884e-01, 3.406865144697575065e+00, -5.898680318704240255e-01, -5.204978563947539882e-01, 1.467846114127479229e+00, 1.164190525999379139e-01, -1.109301969023668288e+00, 2.959712245612332815e+00, -3.012714922392573658e-01, -1.523633840434696518e+00, 3.069395189267603019e-01, 1.262373558662105433e+00, -1.930618384337201565e-01, 3.177676101229448768e+00, -1.035949251820901917e+00, 2.711100162347712672e-02, 2.487005903923552808e+00, 2.021337573997925297e-01, 1.084791090528910873e+00, 3.340893959328003149e+00, -1.924569627142520334e+00, 3.326011185377069967e+00, 8.103324288495543648e-01, -1.389248126312193188e+00, -1.850535306712092654e+00, 4.002190593460957402e+00, -3.505736679570561343e+00, 1.274361804086840300e+00, 1.598850783804187659e-01, 7.645914543539049646e-01, -1.467027891743065915e+00, 1.729955767591035087e+00, 1.290067236802906248e+00, -2.862002673901266725e+00, 2.655230764668631060e+00, 1.732057003560155017e+00, -1.018769407677081018e+00, 1.500613256229934356e+00, 1.718501058600183651e-01, 1.125258688532369655e+00, 1.574457527244182531e+00, 4.642461109595551472e-01, 1.126723279046928372e+00, 9.740650525704080964e-01, 5.383767005443547138e-01, -2.299916483628693609e+00, 3.755912894546437286e+00, 3.208607754385099486e+00, -2.002979662048657294e-01, 5.683093110572833062e+00, 7.580132111031279152e-02, 2.066168307307881147e+00, 2.110437139787130434e+00, 5.149329963507609520e-01, -1.411245900655591745e+00, 4.856499431558257918e+00, -5.168903069066453249e+00, 1.510723433309348662e+00, 4.320530740489646249e+00, 6.959182993712681453e-01, -3.778973578438901137e-01, 3.331742373432237780e+00, 1.637377311436466698e+00, -1.696166745957370825e+00, 3.768788768816868195e+00, 4.916800112028269498e-01, -1.458125528224553769e+00, 5.704747872805313591e-01, -2.968141050174956774e+00, 2.342295314119046956e-01, 3.210793899401462426e+00, 1.650213506713276601e+00, 2.319374268917122617e-01, 1.963301364583142083e+00, 2.180574979267280444e-01, 1.644246824191790246e+00, 3.202404099532586201e+00, -2.646348581195745897e+00, 2.748134165545024210e-02, 1.460677602424540256e+00, -9.984017963385422023e-01, -1.319324596775835801e+00, 2.565246980374341845e+00, 1.075792050138683620e-01, -8.014036799132828737e-02, 2.980762522326995789e+00, 1.187790122734671661e+00, 5.565385024079548826e-01, 2.454454253286852516e+00, -2.089068991520625085e-01, -1.074432537143445110e+00, 1.783605388855355134e+00, 6.222950598626286745e-01, 2.776013753776300219e-01, 3.106720469279974139e+00, -3.241293210156961924e-01, -1.503711490550651009e-01, 3.228715384561752444e+00, 2.226951421987354962e+00, -3.494970830449964927e-01, 3.873058322439694723e-01, -7.540278358162205707e-01, 6.857378406644049074e-01, 3.160276567299553196e+00, 2.891951792619427586e+00, 1.686377024808793257e+00, 5.718373990548165642e-01, -1.509777250226411738e-01, 1.842901994772828678e+00, 3.330329465445319048e+00, 3.619738676951897105e+00, 5.559293270510804463e-01, 3.435740437814041037e+00, -1.278881783201993638e+00, 1.765828823976734352e+00, 1.320400332649921848e+00, 1.027268839838816117e+00, -8.086067588619318958e-01, 3.376725823207029631e+00, -1.681727048895629961e+00, 5.722472564092203617e-01, 3.278067711986323740e+00, -1.664676136301539877e+00, -1.770562400430404804e+00, 1.828943431300293021e+00, -2.934100714447858138e-01, -1.179093013120582789e+00, -9.801104122763839577e-01, 5.861769060578911339e-02, -2.750238631084588325e-01, 2.816904579494847738e+00, 2.235418002424037098e+00, -7.567283627563492487e-02, 2.906622953924626884e+00, 2.681267727479684781e-01, 1.166220951855849952e+00, 2.297387485587332634e+00, 9.388422105384363059e-01, -5.624227053573469526e-01, 2.478718886770788554e+00, 7.519982912379307161e-01, -4.925637746719932486e-01, 2.944715043380675024e+00, -1.981428720133175947e+00, 1.033049738561896191e+00, 5.360546711377256468e-01, 1.138167332870350990e+00, 4.851241196682956058e-01, 3.763177690423129107e+00, -9.854769552783694264e-01, -4.883058202707912798e-01, 9.703215061153920296e-01, -1.003605294867769615e+00, 6.637378891837980577e-01, 3.466225973883963363e+00, 6.569113631428727951e-01, 5.750734065789301352e-01, 2.271234283121071229e+00, -1.815818339571707019e-01, -3.751329879105820830e-01, 4.418552398782249924e+00, 1.372800542826358328e+00, 1.895799141066035087e+00, 3.300608237678987145e+00, -1.780967939056856908e+00, -1.011289370319360614e+00, 2.585281219049737178e+00, 1.648100719885599696e+00, 5.227795110954991387e-01, 1.284873427362678067e+00, -5.065996503000409490e-01, -7.870769038590279543e-01, 2.818815160213737236e+00, -2.710748505911455553e-01, -1.115048987770651090e+00, 1.409879074962493872e+00, -2.513868400502297540e+00, 8.086315180739691577e-01, 5.363360962142025290e-01, 2.014446940022644739e-01, 7.204188412623467874e-01, 1.981666625028188022e+00, -1.670642972203647325e+00, -1.356594597096757893e+00, 2.841995881970833082e+00, 3.390940269931903117e+00, -2.109719098899994094e+00, 3.570607242454963082e+00, 2.808540656616524522e+00, -2.796472095719288120e+00, 3.056273112280661675e+00, 1.758718590427742257e+00, 1.722209123824782528e+00, 2.504586134198731440e+00, 6.543964915400927174e-01, 7.123598329563755049e-01, 9.328313051863666994e-01, 1.987956074578566490e+00, -3.413217665161953907e-01, 2.603641615139450138e+00, -2.600886644228321831e-01, -1.055890181350084722e+00, 2.509752705964109154e+00, -1.386681050015048378e-03, 3.082970118418820515e+00, 6.186667720109525703e+00, -2.224765927481086702e+00, 1.261838945524613509e+00, 3.116482612674169594e+00, -2.557665613575838215e+00, -1.865225421156583852e-01, 2.252325603377089536e+00, 1.506185847865638694e-01, -1.102060426520159453e+00, 3.062950878389046672e+00, 1.224628356256866724e+00, -1.724652039395708769e-01, 4.243805851325261891e+00, 6.803579319600667752e-01, 2.626381623495199324e+00, 1.590898256137485145e-01, 8.823574588567634214e-01, -8.104131013600165412e-01, 1.967672083014530227e+00, -5.602416718153069297e-02, 1.403420332815966676e+00, 2.281389240605761426e+00, -1.503906328006109350e+00, -2.282757754225667846e+00, 1.224925036018454483e+00, 1.445061549309799354e+00, -2.284105552232046588e+00, 7.053355401805451175e-01, -1.905325703144891580e+00, 1.089056742446362858e+00, 4.419648863327148902e+00, -1.413661897716606664e+00, 1.661223477640936474e+00, 2.748423864948695616e+00, 2.242264274558489312e+00, 2.306002385371527907e+00, 2.693103784940866330e+00, -8.008132263745093571e-01, 3.120033425429644680e-01, 1.996879738855656727e+00, 1.386441671169883483e+00, 1.800771593196424103e+00, 3.013298921339920167e+00, -6.875888923880749681e-01, -6.056941803400890389e-01, 2.562996114679660042e+00, -4.155496377172193112e-01, 1.180859204332146639e+00, 2.089719517593525033e+00, 7.078509135852857348e-01, -9.460607256509560026e-01, 2.377438936872442898e+00, 7.621988238202582755e-01, -3.070218603980918282e+00, 1.946731185350828230e+00, 2.069124389274175524e+00, 9.061724335196823521e-01, 3.511614593786423377e+00, -1.477144479725768678e+00, 9.883323836322401856e-01, 5.425953796031786069e-01, -3.413989666302276738e-01, -2.280293962607010672e-01, 5.007932421917685062e+00, -7.581269896666100738e-01, -9.160667033811671356e-01, 1.751533242080564934e+00, 9.690836189013214419e-01, 5.103282466779230919e-01, 4.221988583203794221e+00, -1.103009109988909442e+00, -1.516949451698134776e+00, 3.023208907700058123e+00, 1.913809956167139781e+00, -5.992936726632469568e-01, 3.923499123064533300e-01, -4.760324818615976339e-01, 1.263966047187575992e+00, 1.412962129448786852e+00, 1.940536810611198426e+00, 5.145083044376781434e-01, 1.087463427377703962e+00, 4.517251625432029960e-01, 9.662164069201085725e-01, 3.382298149815386346e+00, 6.583858732136632641e-02, 1.905013718412219781e+00, -8.128059628706112427e-01, -8.915268288654324413e-01, 1.477175598490949149e+00, -1.437064101707560049e+00, 1.333694758814618186e+00, -2.379929333468868702e-01, 1.811964196098286628e+00, 6.142511589721204590e-01, 1.517484440546983837e+00, 2.295941885344637168e+00, -1.106306450331454139e+00, -3.301362269269470517e-01, 2.249440356771831517e+00, -3.201328091693816935e-01, -3.607719040485793949e-01, 1.214780219144328210e+00, 1.671632919944312956e+00, -1.488167593750850948e-01, 2.114781391572664759e+00, 2.100023339867235883e+00, 1.671620036057496650e+00, 4.978390020526756388e+00, -3.710870328574709998e+00, 6.336072050758060348e-01, 2.570194007379527523e+00, 2.390201930554844978e+00, 7.375814433767178269e-01, 1.254672718074632209e+00, -7.855911758615448104e-01, 2.024040343371479728e-02, 3.924879791514992000e+00, 2.226544784041349700e+00, 9.845435973122344808e-02, 1.848399551492793780e+00, -2.129721660363437241e-01, -1.487521173652315953e+00, 2.523083386588695021e+00, -2.147429312138819935e-01, -2.079812314819560637e+00, 3.266393528259888157e+00, 1.987847253624789978e+00, 1.061061967578820209e+00, 2.952692789875741131e+00, -2.166360552719178045e+00, -1.247747386204925091e+00, 1.733471922538275978e+00, -1.245384442631124244e+00, 7.404438764406658935e-01, 1.021949659221760953e+00, -1.319384722130355403e+00, -1.488216441528758205e+00, 3.379070298880566092e+00, -5.018132208133507799e-01, 1.676834998645247321e+00, 1.800550693478969455e+00, 9.336532539712185663e-01, 1.738595886799771062e+00, 2.666370313097656819e-01, -3.208482971803418238e+00, -2.183538667299905534e+00, 2.150357412206325147e+00, 7.827015890122052122e-02, -5.395522163961956608e-01, 9.805783836804682352e-02, -8.615350838903239605e-01, 5.443616909560757833e-01, 3.433124303046446890e+00, -2.643028375046008183e-02, 1.811271527695725858e+00, 3.102054597136044478e+00, 6.490874529771017976e-01, -1.204444526115298952e+00, 3.259828293311739955e+00, -6.921412383772354016e-01, 2.626505454604476597e+00, 3.241472797053125632e+00, -6.549503889242009880e-01, -3.679511494864021515e+00, 2.886022946482120322e+00, 8.411862713529043578e-01, 1.994426719048360885e+00, 3.571341937194328686e+00, 9.331640617944426674e-01, 2.339244210430907467e-01, -1.299111236662719104e+00, -6.721801529320710067e-01, -9.864686173726384677e-01, 2.980218253097904224e+00, 1.322277569241917750e+00, 4.170424391618804405e-01, 2.411235317841882442e-01, 1.210513926058624179e+00, -1.589399083234335652e+00, 1.626273631613713855e+00, 6.075712471958166772e-02, 1.240715770881758662e+00, 2.280186915714826235e+00, -4.108575111245661660e+00, -8.920945289470498807e-01, 3.561374913694088207e+00, 6.997689541047343864e-01, -1.235684075169890095e+00, 3.775286228266704125e+00, 2.424422941892780958e+00, -1.254179339516806824e+00, 2.156395802092614736e-02, -1.397219563891806571e+00, 2.043833382997260362e+00, 1.698654015868284128e+00, 1.488326281434330323e+00, 9.078307530994107477e-01, 2.257054439055380612e+00, -3.350624000671905134e-01, -7.831309838066905504e-01, 2.311559725653099751e+00, -1.538803456164493433e+00, 2.640753255508345720e-01, 3.083908637828290722e+00, -6.090500496158665067e-01, 7.386033724853693361e-01, 1.074235742280120087e+00, -7.432942001716688063e-01, -1.110905678276784547e-01, 7.511505755404418450e-01, 6.598988758100918783e-01, 1.733528379549545084e+00, 3.245612017019774420e+00, 9.518702444570119603e-01, -1.428013818390116985e-01, 3.911355363192136281e+00, 2.951836732442747468e-01, -5.146457214634981847e-01, 7.666461506467034948e-01, -3.249587695836675838e+00, -1.983480982152829031e-01, 2.141195422636735568e+00, 6.003711348215124977e-01, 9.973758373145586997e-01, 5.151720277502743528e+00, 4.674192536040196799e+00, -9.545431428559637554e-01, 5.303544904890131750e-01, 1.385587102569529439e+00, 6.348552759954861902e-01, 3.714937279765928579e-02, 1.911841511949376127e+00, 5.045833564851668340e-01, 2.244854751307026497e+00, 1.404227681065686850e+00, -1.138081125653975789e+00, 2.919928706298440257e-01, 1.378617140354754689e+00, -8.918758127492698584e-01, 3.313023218808371695e+00, -1.250870136410869193e+00, -5.781227293851521482e-02, 7.296059972144353090e-02, 2.378530675742958955e+00, 1.300548466692294181e+00, 4.848793995669773871e+00, -8.333047771074513221e-01, 1.777970442620266489e+00, 1.482601002014303448e+00, 1.100980518904700389e+00, -8.739309437363944610e-01, 2.113200976416608867e+00, -1.885472813437347295e+00, 1.902396892058106692e+00, 3.650637187562002950e+00, -1.410524747345992314e+00, -9.263669605217940139e-01, 2.573362777381932087e+00, 1.821429380462776360e+00, -1.648642358891868831e+00, 2.700692040285828543e+00, -4.542620495144369941e-01, 1.909326827508983193e+00, 9.327346346294890234e-01, -6.686733558716587700e-01, -4.432964047610518099e-01, 3.405281024498484577e+00, -4.000425313579377140e-01, -1.197904912702202562e+00, 2.187137784323767153e-01, 8.772358809568852056e-01, 2.555951554078538024e+00, 2.008780763310446638e+00, 6.910809323636387669e-01, 6.972145058292181785e-01, 2.608930235033245282e+00, 5.470414395824867437e-01, -1.182334713644017210e+00, 1.828517853830571083e+00, -9.794206012139793083e-02, 8.414006841854899665e-01, -1.211224818059728481e+00, 4.608962374171410303e-03, 1.622751974028067146e-01, -6.719654473584665277e-01, 1.772152994119562175e+00, 1.037680789413231164e+00, -1.543614352924476796e+00, 1.511211608630905756e+00, -7.531009523351408497e-01, -2.723644239143676593e-01, 6.142001878190348485e-01, 2.528066107966897569e-02, -1.124487163071160367e+00, 2.912465612171939444e+00, 4.720988753308577035e-01, -1.241142826593491622e+00, 1.020201007063908483e+00, 7.951038932874353593e-01, -7.168494219232330877e-01, 1.161250035072841635e+00, -3.584325980065702355e-01, -6.957373625078246970e-01, 2.007665954632390282e+00, -1.576858184389838602e+00, -1.748511503513225707e+00, 1.646206698429778292e+00, 6.309593943759317369e-01, -1.503719666678995148e+00, 1.653159654995307815e+00, 4.156108621258475244e-01, 1.472936467114138948e+00, 1.860349767250324859e+00, -1.841909172229887481e+00, -1.756214679213474739e-02, 1.320688867455141358e+00, 3.019940901788610299e-01, -1.465400077564573023e+00, 4.843515185834851300e-01, -1.874540971460154637e-01, -5.896992550153279389e-02, 9.910407657652759994e-01, 1.620797073654722364e+00, -1.957907387544737254e-01, 2.111807094983922717e+00, 1.277857811647610919e+00, -9.712853051815105720e-01, 2.285199866865905705e+00, 1.447036343101219202e+00, 7.049538881437054094e-01, 1.360504249691631973e+00, 4.659397486374295960e-01, -1.895945971870971913e+00, 1.793860225790646634e-01, 1.432926529821335837e+00, -5.711326574683783797e-01, 2.057904205993094759e+00, 1.941013785589093432e+00, -1.015134302333369209e+00, 8.960694016401022921e-01, -1.702080820556854501e+00, -1.578236532519583069e+00, 1.102292550739400134e+00, 6.074951659508064372e-01, -1.899331186301595142e+00, 4.678373706895332385e-01, 1.389751117768525779e+00, -4.542416241000868382e-02, 4.064593262794770068e-01, 7.302175985197043584e-01, -5.535664641063828828e-01, 1.509516774233347292e+00, 4.934022667303639142e-02, -1.955576451775596913e-01, 1.179353508435677211e+00, 1.598484371279451421e+00, -1.017591165857090196e+00, 1.116012575489412129e+00, -9.756246571604532125e-01, -6.292255277581095818e-01, 2.928288455856161043e+00, -3.426942181537372401e-01, -6.658966257189486981e-01, 7.776366723314187546e-01, -8.801272792704719627e-01, 9.571721973166102959e-01, 1.724077650492622293e+00, -7.065370367205268121e-01, -2.489637262535778994e+00, -2.601810231495040870e-01, 1.363744809686216586e+00, -1.452940480370732201e+00, -4.056043314015174150e-01, 1.163697236163149906e+00, -1.504075376441293743e+00, 2.656675198841441654e-01, -5.105071727591157238e-01, -1.189687820822044939e+00, 2.458517283669308107e-01, 2.371653540793153159e+00, -6.107549889724377401e-01, 1.087144687785978725e+00, -3.370615839622801424e-01, -1.398942487085259812e+00, 2.932026333223889836e+00, 1.322483218758267132e+00, 5.279766489481925174e-01, -9.180552088413846956e-01, -9.261420021168103034e-01, -1.831619014070402063e+00, 8.286274868123408854e-01, 1.348396245575976815e+00, -7.823896759827582148e-01, 1.699029804151368062e+00, 1.675117775810674114e+00, -2.007738246725539355e+00, 1.053177015418987894e+00, 3.584908204796247500e+00, -9.606317198033437199e-01, 1.074183426427415267e-01, 1.431583858889811767e+00, -1.027552223168291867e+00, 3.114521783849838243e+00, 2.686762112659357160e-01, -6.127074102886622686e-01, 5.170426786630145655e-01, 2.067818192391734922e-01, -1.816163014325785641e-01, 1.593146961173678378e+00, 1.159284048990718574e+00, -7.670654915788437389e-01, 3.104449688010280095e-01, 8.593013894334271541e-01, -1.516320351330450178e+00, 1.498339657776764478e+00, 8.112469557031747325e-01, -6.163230411444151624e-01, 1.561503748795068258e+00, 8.599978732591286867e-01, -7.185251610035855441e-01, 2.100190896455613743e+00, 8.001057368471791165e-01, -2.466350115488695760e+00, 1.713995597391903880e+00, 1.191474604798427706e+00, -2.397666450470144817e+00, 2.719462259445050822e+00, 6.432988365743392833e-01, -5.355914929490120935e-01, 2.166606074434063611e+00, 1.603066172020578994e+00, -8.847665231757619875e-01, 4.876627155491356502e-01, -6.225090592771795883e-01, 1.783582434015744678e-01, 1.777578579135286496e+00, 2.902944154744135918e-02, -3.703347684754157321e+00, 2.814218975619001029e+00, 2.028387954526766457e+00, -1.231709360254478192e+00, 1.345528369932568191e+00, 1.203568198342171547e+00, -1.805198611765451489e+00, 1.541784900405492875e+00, 8.658994821434229383e-01, -1.135786154187307551e+00, 1.606458118152420678e+00, 7.641378682623836127e-01, -8.981688187847554072e-01, 6.529828300939204411e-01, 2.647117093297336465e-01, -1.403516634313281441e+00, 2.687385034785316762e-02, -2.826089749235054516e-01, -1.481589557205035934e+00, 1.077212021651975160e+00, 1.826505851318201978e+00, -2.288683309565919366e+00, 1.340995471779892201e+00, 5.957330924662084248e-01, -2.172545163635168919e+00, 2.335243263598647978e+00, 5.391810132948543499e-01, 8.353451363532469198e-01, 2.407364458772419447e+00, -2.765407949959725054e-01, -2.213985692546259543e+00, 2.265309680800340786e+00, 7.491902146796886042e-02, -7.039027829762781741e-01, 1.647490287635212658e+00, -1.465525659559135718e+00, -5.512884396939661258e-01, 1.679945916190940913e+00, 5.340169035737389880e-01, -1.746508331116401802e+00, 1.876751241925968650e+00, -8.114311096120843114e-01, -2.783603403368967166e-01, -4.285645718396049464e-01, -4.828933486795154995e-01, -4.104783367062712074e-01, 2.911919020200759434e+00, 1.369071153900068616e+00, 2.985877292866612187e-02, 1.026194994704032748e-01, 3.226077815724170961e-01, -8.234617205290675201e-01, 1.956031321540325330e+00, 1.276981956350531355e+00, -4.187914870402912326e-01, 3.979128397035611719e-01, 5.434747723953221588e-01, 7.217814528189760992e-01, 3.301444545643838602e+00, 1.206298901903094078e+00, -1.289138387233941474e+00, 1.162659086168861045e+00, -2.466181796224764522e-02, -2.374490140259887472e+00, 9.303854024769203646e-01, 2.373376604929066325e+00, -1.724482308379761353e+00, 1.702080288765421390e+00, -1.885917281345200980e+00, 1.104948664619989085e-01, 2.246107972531564911e+00, 1.571415806802014536e+00, -2.084470552364042772e-01, 9.314975968231651304e-01, 1.080567534248791262e+00, -4.443603262588001757e-01, 2.123675289799695332e+00, 2.176828984373732623e-01, 7.983045201384955103e-01, 1.792729732711427326e+00, 5.783598550023093532e-01, -5.857774559247005408e-01, 1.476838587081418686e+00, -1.017099286625739341e+00, -1.851921525900860122e+00, 7.350196615132609246e-02, 2.730811678827763433e+00, -2.172021470788179087e+00, 2.811003422090012638e-01, -7.465664067184143438e-01, -1.936677508335613140e+00, 5.178215737710435418e-01, 7.150511802180986587e-02, -3.187535948982385126e-01, 8.961984816070222015e-01, 1.400697229909011021e+00, -2.594976614339279841e+00, 1.056155370511741465e+00, 1.191456587671320566e+00, -1.033110823162741942e+00, 1.252910545414295251e+00, 1.254097775986044327e+00, -1.133982572890843032e+00, 1.510754249397867177e+00, 1.332495184419757672e+00, -9.884934485232986789e-01, 2.119455565717914158e+00, 7.048572829210264512e-01, -2.330744747934855532e+00, -7.042765441183287400e-01, -8.335894011433495621e-01, -6.619518957225292155e-01, 2.204681846387793964e+00, 1.281003518218079673e+00, -1.313546819303053281e+00, 2.220360486222026086e+00, 3.178699764603252209e-01, -1.607963457317219458e+00, 1.009309347177179461e+00, -7.481259262803188204e-01, -1.510450983353539112e+00, 1.325266474641320746e+00, -1.137938305642877124e+00, -1.704561795028219695e+00, 5.124222458449639861e-01, 7.246273099995312883e-01, -1.228897367098531701e+00, 8.643288157213051548e-01, -3.088271562817589411e-01, -1.959444749316660239e+00, 2.970954085260333333e-01, 2.064729421873390258e-02, -9.614128429021380207e-01, 8.986866442603052008e-01, 6.725137138637943268e-01, -1.211694217594308398e+00, 4.652847915833785430e-01, -8.165457886160387702e-01, 5.794356033857184229e-02, 3.721669916004650691e-01, 7.114544783440024389e-01, 1.060593516039290085e+00, 1.022736940254010518e+00, 5.422636359732937450e-01, -7.043613869198981359e-01, 1.626674773162219978e+00, -1.598173325775453790e+00, 3.828697481544902637e-01, 2.391663823223648677e+00, 6.487059954994007782e-01, -7.073646787370460043e-01, 1.082328209443029099e+00, 3.067532503835102009e-01, -2.918806540754113943e+00, 9.898371454501079247e-01, 1.233434624380175926e+00, -1.543957284142249087e+00, 1.867920065575641608e+00, 9.692777673769741309e-01, -1.243200262145652601e+00, -3.713030059058197718e-01, -1.779634693012025481e-01, -3.995777791649970379e-01, 1.802044457900510377e+00, 2.219248802654246955e+00, -7.569839327388039329e-01, 1.383588918367925524e+00, 5.912397513757264855e-01, 5.197844678685044073e-01, 1.283214702358954407e+00, -7.067766111849549393e-01, -1.466794794533762492e+00, 1.122626270525088010e+00, 1.201683517309111160e+00, -4.951290932544198942e-01, -1.180574960903517656e-01, -1.062324750646818083e+00, -1.211535706975381155e+00, 2.908066902072578230e+00, -4.949740504769273297e-01, 3.621059060107516547e-01, 8.207587466576580226e-01, 1.210483840910655084e+00, -1.717730349208495433e+00, -7.067748029153282374e-01, 1.460745022283725048e+00, -1.878264558853286470e+00, 8.595775168733147398e-01, 2.349402967087160565e+00, -1.707317630138410980e+00, 9.842755777765590519e-01, 6.422974518773556518e-01, -3.161443460034459862e-01, 2.395044471572057798e+00, -1.343320759258369357e+00, 1.798632348534390246e-02, 8.994201124863920871e-01, 3.077535527104469537e+00, -2.347052970272401673e+00, 1.216090511548616027e+00, 1.555386467266802963e+00, -2.984584128515742840e+00, 2.423758728528822459e+00, 1.129352697658622673e-01, -2.039447435029412503e+00, 1.603916419692249073e+00, 3.925520096155298289e-01, -4.596985889011077075e-01, 3.933831285565347891e-02, 2.601710026446142798e+00, -1.457495694630153382e+00, -3.169547998868629257e-01, 2.162573187202950109e+00, -6.153738592679059982e-01, 2.378558208456936995e+00, 1.654372232394503150e+00, -9.525755799791764122e-01, 7.111158220791357065e-01, -1.417881371817421021e-01, 4.182767840772423362e-01, 7.626515699202820464e-01, 1.392536620722926610e+00, -1.150061190028356384e+00, 1.483035658471412832e+00, 8.536391787254276053e-01, -2.188789164730795545e+00, 2.130349282907702424e+00, -5.702307975127192119e-01, -6.026963763897043025e-01, 5.305282960316878293e-01, -2.622552704706845317e-01, -5.620615153370296380e-01, 1.341116086200022872e+00, -5.164044136067689195e-01, -1.767343865544629633e+00, 2.394571270717158917e+00, 1.395044105496813458e+00, 3.466565022073924140e-01, 2.611287922400503447e+00, -9.054569499131672750e-01, -3.177912048519891286e+00, 2.847596239597658396e+00, -4.299678849326878938e-01, -1.235649868289325104e+00, 1.970647564527567841e+00, -1.631115909438597411e-01, -1.575085469821620787e+00, 1.486325422379602745e+00, 1.117958722517252035e+00, -8.864642086798812937e-02, 9.785289749517644964e-04, 1.825059424198836266e+00, -3.489251884900856915e-01, 1.851276937733482342e+00, 8.992061178230978946e-01, -5.768009484575808976e-02, 1.775497569401029985e-01, 8.734861606458546035e-01, -1.020843885937547713e+00, 1.593735245460770944e+00, -4.151551254081268238e-01, -1.834473108947350717e+00, 2.711141307894544106e+00, -1.178687133591052039e-01, 2.285703842637418770e-01, 9.442247989800884866e-01, 7.091831128200030143e-01, -1.358539573664437450e+00, 1.583933773485908247e+00, 2.146092649876238934e+00, -1.385602558597577305e+00, 1.056936698058683621e+00, 6.000510194404949926e-01, -5.682879789028812967e-01, 2.277049801354924519e+00, 7.095705214528530425e-01, -1.128273732735276980e+00, 1.512440284113273581e+00, 3.937535787382465680e-01, -8.688492673193661808e-01, 1.982270705253608822e+00, 1.049843444151703276e+00, -9.109851973676992287e-01, 1.434590400631370111e+00, 7.786232334168212699e-01, -8.534499592802311518e-01, 1.361890997547904325e+00, 1.186706739143894129e+00, -2.443565843461247944e+00, 6.637840101201912812e-01, -1.309891441059266359e+00, 9.082953347151663248e-01, 4.425264361326003426e-01, 8.978995700525939094e-01, -2.523551324858694933e+00, 4.040093587605466219e+00, -1.714278212301745263e-02, -7.750684548302981813e-01, 1.554955929247886948e+00, 9.824710263445365355e-01, 1.286067774676352693e+00, 1.214698036157565442e+00, 2.025653751034761640e+00, -1.452644474266798991e+00, 1.278615732413376227e+00, 6.376355234064559063e-01, -3.071744702510508240e-01, 2.226688173062818521e-03, 6.951298310920134282e-02, -1.455263924922935548e+00, 1.264834453570440997e+00, -5.340225994130354259e-01, -1.208352015687496728e+00, 5.007462589715924173e-01, -1.756760419709206822e-01, 2.648991981766120052e-01, 1.668769141840633630e-01, 1.681944437341391207e+00, -6.287553603422649795e-01, 1.862934928706997617e+00, 1.709623918382958685e+00, -6.684490318463724989e-01, 2.529148928568334398e-01, 1.687285268821043349e+00, -2.191248137080760161e-01, 1.987958923534316247e+00, -2.632724716157248679e-01, -2.088836535017067675e+00, 1.876783261277387371e+00, -2.380943949178336627e+00, -1.124358926474622322e+00, 8.335388442574895862e-01, 7.140511002134687368e-01, -1.300999237136706066e+00, 1.841956344734291484e+00, 7.939276412595505095e-01, -1.485733692200997380e+00, 2.810007090558362730e+00, 7.767785509384221854e-01, -1.355242631788970531e+00, 1.358949299150116197e-01, 6.029006030379259196e-01, -1.037982972273898241e+00, 1.032845595284179296e+00, 1.029437775898288443e+00, -9.978603408770178040e-01, 1.471150703600773157e+00, 9.672911702080644325e-01, -3.946915287706639353e-01, 1.534457715438279468e+00, 1.332581694258966998e+00, -2.447207033793923792e+00, -1.572737033287598951e-01, -2.574489143892022547e-01, 1.052196204526336665e-01, 4.596336624178904984e-01, 1.766351863676788980e+00, -3.511960173263141805e+00, 1.743936185959983121e+00, 7.170078685520636652e-01, -1.032146208474147953e+00, 1.519757928293950622e+00, 4.285249602542426373e-01, 3.962574615976697245e-01, 2.064568276572360972e+00, -8.002393246225567580e-01, -3.202946190809942140e-01, 1.565359089299905415e+00, 8.742422034976438106e-01, -2.071050201342854891e+00, 1.423270437408392652e-01, 1.809451065004136439e+00, 2.235796706513617504e-01, 2.896820909292279644e+00, 7.024355672848467957e-01, -1.602459731492634099e+00, 1.279949040830168361e-01, 2.670532670330340252e+00, -7.471428350084166059e-01, 1.588242884597980353e+00, 5.520081816533983776e-01, -2.264776775347121962e+00, 4.889981930406294142e-01, -3.738950168411401265e-01, 5.205725106314829098e-02, -7.059466056970487013e-01, 1.023655604505654404e-01, -2.195925624179340119e+00, 1.175046864089987819e+00, 3.982906661492265910e-01, -3.327788615124321892e-01, 1.430718419215037285e+00, 1.980100015901935073e+00, -1.635044901272178830e+00, 1.676911168504133798e+00, -1.191136818375850392e+00, 3.047521212049568717e-01, 2.041694230868988935e+00, 8.925141137000784930e-01, -1.543893205491341902e+00, 2.448869765391542774e+00, 8.412413119010251350e-01, -1.465620815258183773e+00, 1.000288025196402586e+00, 2.233049373765172430e-02, -1.063554955197791418e+00, -1.060762237975607869e+00, 9.690704985566884755e-01, -1.751281053151472200e+00, 1.346784249199561412e+00, 1.333389125512701168e-01, -2.144691727410997562e+00, 2.400518040825025068e+00, 1.401248354757511638e+00, -1.411036758107383715e+00, 1.184376919576257903e+00, 9.257820269002401403e-01, 4.700302085202445745e-02, 7.364456614408489976e-01, 2.758292065192808451e+00, -1.157944346891900400e+00, 3.496211453343757158e-01, 5.913680715389063591e-01, -2.593499379469166310e-01, 2.673828839870889817e-01, 3.857375246124663537e-01, -1.276770443913427089e+00, 1.753947558972316134e+00, 4.467032078733378375e-01, -4.525431240466464278e-01, 2.198841152486006312e+00, 4.754152116906398828e-01, -1.166884426793107776e-01, 8.234370156925914230e-01, -3.548479907714312542e-01, -1.319587146449632042e+00, 1.741322360746426767e+00, -8.059246656502185857e-01, -5.136100741581604012e-01, 2.290478355202726579e+00, -1.212917062534378809e-01, -1.659550653189611369e+00, 1.954357568720563876e-01, -1.170004916619141522e+00};
idxint num_err_q[200] = {3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3};
idxint num_err_Ajc[1201] = {0, 50, 102, 154, 197, 250, 302, 359, 418, 475, 526, 575, 623, 668, 717, 766, 808, 859, 905, 944, 999, 1051, 1103, 1160, 1200, 1242, 1294, 1346, 1394, 1458, 1507, 1557, 1598, 1649, 1699, 1744, 1792, 1839, 1884, 1934, 1986, 2033, 2086, 2133, 2182, 2232, 2280, 2325, 2380, 2430, 2477, 2537, 2600, 2645, 2690, 2732, 2777, 2818, 2868, 2914, 2966, 3016, 3068, 3114, 3157, 3200, 3248, 3293, 3338, 3383, 3419, 3474, 3518, 3563, 3609, 3669, 3719, 3764, 3809, 3850, 3898, 3944, 3986, 4027, 4073, 4122, 4169, 4208, 4259, 4301, 4349, 4398, 4439, 4488, 4537, 4585, 4634, 4688, 4744, 4793, 4837, 4886, 4927, 4986, 5034, 5080, 5125, 5180, 5225, 5270, 5313, 5358, 5406, 5459, 5500, 5542, 5584, 5627, 5677, 5724, 5772, 5817, 5870, 5911, 5960, 6015, 6060, 6101, 6146, 6204, 6247, 6297, 6339, 6388, 6432, 6475, 6525, 6571, 6610, 6653, 6701, 6744, 6794, 6834, 6879, 6923, 6981, 7021, 7064, 7113, 7165, 7213, 7255, 7310, 7361, 7408, 7458, 7499, 7552, 7600, 7641, 7686, 7735, 7775, 7826, 7877, 7922, 7969, 8018, 8056, 8109, 8151, 8193, 8241, 8288, 8335, 8369, 8411, 8452, 8496, 8548, 8594, 8642, 8688, 8745, 8788, 8842, 8887, 8925, 8969, 9017, 9064, 9118, 9165, 9216, 9265, 9316, 9360, 9402, 9453, 9497, 9548, 9600, 9643, 9684, 9735, 9781, 9828, 9873, 9907, 9960, 10014, 10060, 10107, 10146, 10193, 10245, 10295, 10337, 10398, 10431, 10483, 10531, 10584, 10624, 10669, 10719, 10761, 10813, 10859, 10901, 10943, 10987, 11035, 11076, 11128, 11188, 11230, 11278, 11314, 11366, 11414, 11460, 11509, 11569, 11607, 11661, 11700, 11759, 11801, 11849, 11889, 11942, 11988, 12044, 12078, 12126, 12176, 12223, 12268, 12316, 12359, 12408, 12464, 12509, 12553, 12597, 12651, 12697, 12738, 12787, 12836, 12890, 12925, 12980, 13030, 13072, 13114, 13167, 13220, 13269, 13318, 13368, 13423, 13464, 13502, 13548, 13588, 13637, 13682, 13732, 13775, 13819, 13861, 13911, 13951, 13999, 14041, 14085, 14134, 14183, 14224, 14269, 14320, 14364, 14407, 14454, 14501, 14555, 14602, 14644, 14690, 14731, 14782, 14833, 14886, 14924, 14959, 15000, 15053, 15108, 15157, 15209, 15259, 15308, 15363, 15410, 15464, 15516, 15563, 15608, 15656, 15711, 15750, 15793, 15840, 15895, 15936, 15975, 16022, 16072, 16120, 16167, 16211, 16256, 16305, 16360, 16413, 16462, 16509, 16553, 16588, 16630, 16676, 16715, 16768, 16801, 16843, 16893, 16944, 16988, 17026, 17073, 17120, 17176, 17219, 17266, 17314, 17363, 17401, 17445, 17494, 17551, 17599, 17638, 17679, 17731, 17780, 17838, 17877, 17923, 17967, 18013, 18061, 18109, 18146, 18195, 18248, 18295, 18346, 18394, 18442, 18488, 18534, 18580, 18619, 18658, 18714, 18758, 18801, 18846, 18885, 18936, 18973, 19020, 19063, 19104, 19144, 19200, 19250, 19298, 19345, 19391, 19442, 19490, 19539, 19576, 19621, 19673, 19715, 19756, 19803, 19844, 19885, 19929, 19977, 20024, 20079, 20127, 20175, 20218, 20262, 20301, 20345, 20392, 20438, 20492, 20537, 20582, 20626, 20676, 20721, 20768, 20812, 20856, 20909, 20959, 21010, 21060, 21110, 21160, 21194, 21243, 21288, 21335, 21384, 21438, 21481, 21537, 21588, 21646, 21686, 21739, 21791, 21834, 21879, 21921, 21962, 22010, 22070, 22119, 22166, 22206, 22259, 22312, 22354, 22393, 22442, 22496, 22541, 22595, 22638, 22687, 22748, 22796, 22849, 22899, 22948, 22983, 23037, 23086, 23136, 23179, 23230, 23272, 23322, 23368, 23412, 23458, 23506, 23548, 23606, 23655, 23706, 23752, 23804, 23850, 23893, 23944, 23991, 24038, 24081, 24130, 24174, 24208, 24251, 24306, 24356, 24403, 24456, 24499, 24554, 24590, 24634, 24684, 24739, 24781, 24825, 24868, 24910, 24951, 24994, 25041, 25087, 25131, 25175, 25214, 25255, 25309, 25359, 25411, 25449, 25500, 25555, 25600, 25645, 25688, 25737, 25776, 25823, 25865, 25903, 25951, 26003, 26049, 26090, 26136, 26188, 26244, 26308, 26355, 26398, 26447, 26490, 26544, 26589, 26640, 26678, 26737, 26780, 26837, 26894, 26938, 26986, 27028, 27087, 27138, 27186, 27234, 27281, 27326, 27368, 27425, 27473, 27521, 27574, 27621, 27671, 27723, 27763, 27809, 27855, 27896, 27948, 27994, 28044, 28104, 28152, 28204, 28247, 28289, 28333, 28374, 28424, 28468, 28520, 28570, 28612, 28657, 28693, 28730, 28779, 28825, 28863, 28909, 28960, 29010, 29062, 29110, 29165, 29199, 29240, 29289, 29331, 29383, 29421, 29471, 29516, 29559, 29612, 29654, 29704, 29754, 29803, 29847, 29901, 29940, 29995, 30041, 30089, 30138, 30185, 30232, 30278, 30323, 30369, 30413, 30459, 30496, 30541, 30579, 30629, 30674, 30713, 30751, 30794, 30840, 30882, 30933, 30985, 31030, 31087, 31135, 31181, 31230, 31275, 31329, 31377, 31420, 31469, 31513, 31562, 31605, 31654, 31699, 31759, 31814, 31861, 31908, 31962, 32007, 32057, 32106, 32157, 32195, 32239, 32278, 32320, 32365, 32412, 32459, 32509, 32553, 32594, 32645, 32694, 32740, 32793, 32841, 32891, 32939, 32996, 33050, 33098, 33154, 33192, 33244, 33295, 33332, 33385, 33436, 33484, 33532, 33601, 33647, 33687, 33738, 33782, 33825, 33876, 33915, 33961, 34011, 34056, 34102, 34147, 34193, 34241, 34289, 34335, 34383, 34423, 34477, 34526, 34580, 34634, 34681, 34731, 34784, 34835, 34890, 34937, 34985, 35044, 35088, 35127, 35177, 35229, 35281, 35328, 35374, 35430, 35479, 35533, 35574, 35629, 35679, 35728, 35783, 35823, 35868, 35907, 35950, 35985, 36029, 36079, 36123, 36165, 36213, 36277, 36323, 36372, 36421, 36472, 36523, 36564, 36612, 36662, 36708, 36757, 36801, 36850, 36895, 36942, 36990, 37033, 37086, 37134, 37184, 37230, 37289, 37334, 37385, 37425, 37475, 37524, 37569, 37614, 37654, 37702, 37753, 37801, 37857, 37906, 37955, 37999, 38047, 38094, 38149, 38202, 38252, 38298, 38351, 38409, 38456, 38501, 38552, 38599, 38638, 38690, 38742, 38780, 38822, 38867, 38922, 38971, 39023, 39071, 39123, 39172, 39214, 39264, 39312, 39361, 39406, 39461, 39520, 39572, 39622, 39663, 39711, 39751, 39804, 39846, 39901, 39948, 39995, 40049, 40098, 40152, 40195, 40242, 40285, 40340, 40392, 40439, 40483, 40525, 40572, 40624, 40670, 40713, 40759, 40817, 40866, 40909, 40958, 41007, 41057, 41102, 41144, 41181, 41241, 41278, 41315, 41350, 41393, 41429, 41482, 41528, 41565, 41617, 41666, 41706, 41756, 41803, 41854, 41899, 41943, 41983, 42026, 42076, 42126, 42176, 42218, 42264, 42312, 42352, 42404, 42450, 42490, 42533, 42578, 42626, 42669, 42710, 42752, 42802, 42841, 42896, 42941, 42996, 43038, 43085, 43133, 43185, 43240, 43294, 43337, 43380, 43436, 43494, 43546, 43598, 43654, 43701, 43743, 43787, 43835, 43884, 43931, 43980, 44027, 44076, 44130, 44184, 44223, 44266, 44321, 44374, 44420, 44475, 44517, 44568, 44613, 44659, 44713, 44770, 44822, 44865, 44912, 44959, 45005, 45045, 45097, 45147, 45196, 45248, 45295, 45347, 45403, 45455, 45498, 45534, 45580, 45631, 45684, 45734, 45782, 45823, 45863, 45915, 45965, 46020, 46064, 46102, 46148, 46195, 46243, 46287, 46334, 46378, 46431, 46485, 46550, 46598, 46637, 46685, 46731, 46777, 46820, 46865, 46911, 46960, 47009, 47068, 47119, 47167, 47209, 47262, 47320, 47376, 47422, 47460, 47506, 47562, 47605, 47647, 47697, 47740, 47793, 47842, 47893, 47944, 47982, 48036, 48080, 48121, 48160, 48204, 48242, 48290, 48327, 48368, 48412, 48457, 48506, 48547, 48588, 48626, 48681, 48729, 48779, 48832, 48868, 48918, 48961, 49010, 49060, 49107, 49161, 49223, 49272, 49314, 49371, 49416, 49469, 49520, 49566, 49610, 49659, 49711, 49755, 49804, 49841, 49892, 49934, 49973, 50016, 50070, 50112, 50166, 50218, 50265, 50321, 50353, 50406, 50456, 50502, 50546, 50593, 50631, 50673, 50720, 50768, 50823, 50878, 50921, 50965, 51005, 51052, 51105, 51150, 51198, 51250, 51298, 51345, 51389, 51437, 51488, 51534, 51571, 51623, 51671, 51725, 51779, 51818, 51872, 51925, 51975, 52023, 52067, 52110, 52157, 52197, 52246, 52292, 52353, 52393, 52439, 52478, 52535, 52584, 52642, 52682, 52727, 52777, 52823, 52868, 52916, 52954, 52990, 53034, 53088, 53132, 53187, 53228, 53270, 53326, 53374, 53427, 53474, 53530, 53576, 53625, 53672, 53711, 53757, 53809, 53858, 53907, 53951, 53995, 54038, 54092, 54142, 54190, 54233, 54282, 54327, 54377, 54420, 54463, 54507, 54558, 54598, 54642, 54678, 54729, 54774, 54820, 54869, 54920, 54965, 55012, 55055, 55101, 55149, 55195, 55244, 55297, 55334, 55387, 55432, 55476, 55530, 55579, 55624, 55675, 55722, 55761, 55813, 55853, 55909, 55956, 56006, 56048, 56088, 56136, 56179, 56227, 56274, 56323, 56366, 56399, 56451, 56501, 56546, 56597, 56652, 56699};
idxint num_err_Air[56699] = {1, 2, 3, 6, 9, 11, 13, 15, 16, 20, 24, 25, 27, 31, 33, 36, 43, 44, 45, 46, 48, 53, 56, 60, 61, 63, 66, 71, 72, 73, 75, 77, 78, 79, 80, 82, 83, 93, 95, 97, 100, 101, 103, 104, 109, 112, 114, 115, 116, 117, 0, 3, 8, 11, 12, 15, 21, 25, 27, 28, 30, 31, 32, 33, 34, 38, 40, 41, 45, 47, 49, 50, 53, 57, 59, 61, 62, 65, 67, 69, 70, 71, 72, 75, 78, 81, 86, 88, 89, 92, 94, 96, 97, 102, 105, 107, 110, 111, 112, 114, 115, 117, 0, 1, 2, 3, 7, 10, 15, 18, 22, 27, 30, 34, 35, 36, 39, 42, 43, 44, 46, 53, 54, 57, 58, 59, 60, 65, 66, 69, 70, 71, 73, 74, 75, 77, 79, 80, 81, 82, 83, 88, 91, 94, 96, 97, 101, 107, 109, 111, 113, 115, 117, 119, 3, 7, 12, 15, 18, 20, 22, 25, 31, 34, 38, 41, 47, 49, 54, 55, 56, 57, 58, 59, 63, 64, 67, 68, 75, 78, 83, 85, 86, 88, 89, 91, 92, 98, 101, 102, 107, 108, 110, 111, 115, 116, 117, 0, 1, 3, 4, 6, 8, 9, 10, 12, 14, 16, 17, 19, 21, 24, 27, 29, 31, 34, 36, 37, 38, 40, 41, 42, 43, 50, 51, 57, 58, 60, 62, 64, 65, 73, 75, 77, 80, 85, 86, 89, 91, 92, 93, 94, 99, 103, 104, 109, 110, 115, 117, 119, 0, 2, 4, 5, 6, 7, 8, 9, 13, 14, 15, 19, 20, 21, 22, 23, 24, 28, 29, 35, 40, 47, 48, 49, 51, 53, 54, 62, 64, 65, 72, 76, 77, 79, 82, 84, 85, 86, 87, 88, 90, 93, 94, 97, 99, 104, 106, 107, 108, 112, 116, 118, 2, 6, 9, 10, 14, 15, 16, 17, 18, 20, 25, 26, 27, 29, 33, 36, 37, 41, 42, 44, 45, 49, 50, 57, 58, 62, 63, 64, 66, 67, 68, 71, 73, 75, 76, 77, 78, 79, 81, 82, 83, 84, 92, 94, 97, 98, 99, 104, 108, 110, 111, 112, 113, 115, 116, 117, 118, 0, 2, 3, 7, 9, 10, 13, 18, 19, 23, 25, 27, 31, 32, 34, 38, 39, 40, 42, 43, 46, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 61, 63, 64, 67, 68, 69, 70, 71, 73, 78, 80, 82, 84, 85, 86, 92, 96, 97, 98, 101, 103, 108, 110, 112, 113, 115, 118, 0, 1, 4, 6, 10, 12, 13, 14, 19, 22, 23, 24, 26, 27, 28, 29, 31, 32, 35, 36, 38, 42, 44, 46, 47, 50, 52, 53, 55, 56, 57, 58, 60, 63, 69, 70, 74, 75, 76, 77, 79, 81, 83, 86, 88, 89, 93, 96, 97, 98, 100, 101, 105, 106, 114, 117, 119, 1, 2, 4, 5, 7, 8, 11, 12, 15, 16, 17, 18, 21, 22, 25, 27, 33, 35, 45, 46, 47, 48, 51, 52, 53, 55, 57, 58, 60, 62, 63, 68, 71, 72, 76, 77, 79, 82, 83, 86, 93, 94, 96, 99, 100, 102, 105, 106, 108, 114, 117, 6, 10, 20, 26, 27, 28, 29, 33, 34, 36, 38, 42, 43, 45, 46, 47, 48, 50, 51, 52, 53, 54, 55, 63, 65, 67, 68, 69, 70, 75, 76, 80, 82, 84, 86, 87, 90, 91, 92, 94, 95, 98, 99, 100, 102, 104, 113, 117, 118, 2, 3, 5, 7, 9, 14, 15, 16, 17, 18, 19, 20, 21, 24, 30, 31, 33, 34, 46, 48, 51, 55, 58, 60, 61, 66, 70, 71, 72, 73, 76, 77, 83, 84, 85, 87, 88, 92, 93, 99, 104, 106, 107, 109, 115, 116, 117, 118, 0, 1, 2, 5, 9, 10, 13, 16, 19, 22, 23, 25, 29, 30, 31, 34, 36, 37, 39, 40, 44, 48, 52, 54, 56, 66, 67, 68, 69, 74, 75, 77, 80, 81, 87, 91, 92, 97, 101, 104, 107, 112, 115, 116, 119, 1, 2, 8, 11, 13, 14, 20, 21, 26, 27, 28, 35, 36, 37, 38, 39, 42, 43, 44, 46, 51, 52, 53, 56, 61, 62, 64, 65, 70, 71, 72, 74, 82, 83, 84, 85, 87, 90, 94, 96, 98, 99, 104, 105, 110, 111, 113, 115, 118, 0, 1, 3, 5, 6, 7, 9, 11, 12, 14, 15, 16, 17, 18, 19, 22, 25, 29, 30, 31, 35, 41, 47, 52, 53, 54, 57, 58, 62, 65, 70, 77, 79, 86, 87, 89, 92, 93, 94, 95, 97, 99, 100, 101, 110, 111, 115, 116, 117, 2, 3, 5, 10, 19, 20, 21, 22, 23, 24, 29, 30, 32, 37, 38, 39, 45, 46, 47, 49, 50, 51, 53, 55, 56, 59, 64, 66, 69, 70, 77, 83, 87, 88, 90, 91, 93, 97, 100, 101, 104, 116, 0, 1, 2, 4, 5, 8, 12, 15, 18, 20, 24, 26, 28, 31, 33, 34, 35, 36, 40, 42, 46, 47, 51, 53, 54, 56, 57, 59, 62, 66, 67, 68, 74, 75, 79, 80, 81, 83, 86, 91, 93, 95, 97, 98, 99, 105, 106, 107, 108, 118, 119, 2, 5, 6, 7, 8, 12, 18, 19, 23, 28, 32, 39, 41, 43, 44, 47, 48, 49, 53, 59, 63, 64, 66, 67, 69, 70, 73, 74, 77, 78, 79, 82, 85, 87, 88, 91, 93, 95, 97, 100, 103, 106, 107, 108, 109, 118, 2, 8, 11, 15, 16, 19, 24, 26, 27, 30, 33, 34, 36, 38, 43, 44, 47, 48, 53, 54, 55, 58, 59, 64, 65, 73, 82, 84, 85, 91, 92, 93, 98, 99, 100, 101, 105, 118, 119, 2, 9, 17, 20, 21, 22, 25, 28, 30, 32, 34, 35, 36, 41, 42, 44, 45, 47, 49, 50, 51, 54, 58, 59, 63, 64, 65, 66, 68, 70, 77, 80, 82, 85, 86, 87, 88, 89, 91, 92, 94, 95, 97, 98, 101, 102, 104, 107, 108, 111, 112, 113, 114, 115, 118, 0, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 15, 16, 17, 18, 24, 25, 27, 33, 39, 43, 44, 48, 50, 51, 52, 53, 56, 59, 61, 62, 63, 64, 65, 67, 70, 72, 74, 77, 89, 91, 94, 97, 99, 100, 102, 104, 107, 109, 110, 114, 116, 1, 3, 8, 10, 11, 12, 15, 16, 17, 19, 20, 22, 24, 30, 31, 33, 38, 39, 41, 42, 43, 45, 46, 49, 53, 58, 61, 62, 63, 66, 72, 74, 79, 81, 83, 84, 87, 88, 95, 98, 99, 102, 103, 105, 106, 108, 109, 110, 111, 113, 114, 118, 0, 6, 11, 12, 14, 16, 17, 19, 20, 22, 24, 26, 27, 28, 29, 30, 33, 36, 38, 41, 46, 47, 48, 53, 54, 55, 57, 58, 61, 63, 64, 65, 68, 69, 70, 72, 73, 76, 79, 80, 82, 88, 89, 90, 91, 93, 94, 97, 101, 103, 106, 107, 108, 109, 113, 118, 119, 1, 2, 5, 8, 11, 15, 16, 18, 21, 22, 23, 31, 33, 34, 38, 41, 42, 45, 50, 58, 63, 66, 69, 71, 83, 84, 86, 87, 89, 90, 93, 94, 96, 98, 99, 103, 106, 109, 110, 115, 7, 8, 11, 15, 19, 20, 23, 30, 33, 35, 37, 38, 39, 41, 47, 48, 49, 52, 53, 54, 58, 62, 68, 70, 72, 76, 77, 82, 83, 84, 89, 92, 93, 96, 103, 106, 109, 110, 111, 115, 116, 118, 0, 1, 3, 6, 8, 10, 12, 13, 14, 15, 16, 20, 23, 28, 32, 35, 38, 41, 43, 48, 49, 51, 52, 54, 56, 57, 60, 61, 63, 64, 65, 70, 76, 77, 80, 82, 84, 89, 92, 95, 97, 100, 101, 103, 105, 107, 109, 110, 111, 113, 116, 119, 2, 6, 8, 9, 14, 15, 16, 22, 23, 26, 29, 30, 31, 35, 41, 42, 44, 48, 51, 52, 54, 59, 61, 62, 63, 64, 66, 68, 70, 72, 75, 77, 78, 79, 80, 82, 85, 86, 88, 89, 90, 92, 93, 98, 100, 103, 105, 108, 109, 111, 113, 119, 0, 3, 4, 7, 11, 14, 15, 20, 22, 29, 30, 31, 33, 34, 38, 41, 44, 50, 53, 55, 56, 57, 58, 68, 73, 76, 77, 79, 80, 82, 84, 88, 89, 92, 94, 95, 98, 99, 103, 104, 105, 106, 107, 112, 115, 117, 118, 119, 4, 6, 10, 11, 12, 13, 16, 18, 20, 21, 22, 23, 25, 26, 27, 29, 34, 35, 37, 38, 39, 44, 45, 49, 50, 52, 53, 54, 55, 60, 61, 62, 63, 64, 65, 66, 68, 70, 71, 75, 76, 79, 80, 83, 87, 88, 89, 90, 91, 93, 96, 97, 102, 103, 105, 107, 110, 111, 113, 114, 115, 117, 118, 119, 0, 1, 2, 3, 5, 7, 9, 11, 12, 16, 18, 28, 33, 35, 36, 37, 38, 39, 40, 41, 42, 44, 47, 50, 54, 56, 60, 62, 64, 66, 70, 74, 77, 80, 81, 84, 86, 91, 92, 96, 97, 99, 100, 101, 102, 107, 108, 117, 119, 2, 4, 9, 10, 11, 12, 22, 23, 25, 27, 29, 32, 33, 36, 37, 38, 39, 46, 47, 48, 49, 58, 61, 63, 65, 67, 69, 70, 72, 73, 74, 75, 82, 84, 85, 87, 89, 93, 95, 97, 98, 99, 100, 103, 106, 107, 110, 112, 114, 117, 3, 9, 10, 14, 17, 23, 25, 26, 27, 28, 32, 43, 44, 45, 46, 49, 51, 60, 62, 66, 77, 78, 79, 80, 81, 82, 83, 84, 86, 93, 95, 96, 98, 104, 107, 110, 113, 115, 116, 118, 119, 3, 7, 8, 10, 13, 14, 15, 16, 20, 21, 23, 24, 25, 27, 31, 34, 35, 36, 38, 39, 41, 42, 45, 48, 54, 56, 57, 61, 64, 65, 66, 67, 68, 71, 73, 74, 84, 87, 88, 89, 92, 94, 95, 100, 102, 105, 106, 110, 112, 113, 115, 0, 1, 4, 6, 8, 13, 15, 21, 23, 28, 29, 30, 32, 33, 35, 37, 41, 42, 44, 46, 47, 50, 52, 53, 54, 59, 62, 67, 69, 71, 72, 74, 75, 76, 77, 78, 80, 81, 86, 88, 90, 92, 95, 100, 101, 106, 113, 114, 116, 117, 4, 5, 7, 9, 10, 11, 17, 18, 19, 21, 23, 25, 26, 27, 28, 29, 31, 34, 35, 37, 48, 49, 61, 63, 65, 66, 67, 80, 85, 89, 91, 93, 98, 102, 103, 104, 107, 109, 110, 111, 113, 115, 116, 117, 118, 0, 1, 6, 9, 11, 13, 22, 28, 29, 31, 32, 34, 35, 37, 42, 49, 50, 52, 54, 57, 58, 59, 62, 65, 66, 69, 74, 75, 81, 84, 86, 87, 89, 90, 91, 94, 95, 97, 101, 102, 106, 109, 112, 113, 114, 116, 117, 118, 0, 9, 10, 11, 15, 19, 21, 23, 24, 26, 29, 32, 36, 38, 39, 42, 43, 50, 53, 55, 56, 57, 59, 62, 67, 68, 70, 73, 74, 77, 78, 80, 81, 84, 85, 91, 92, 93, 96, 100, 101, 104, 107, 108, 110, 111, 117, 1, 9, 11, 13, 14, 15, 16, 20, 21, 24, 27, 28, 30, 35, 36, 38, 43, 44, 46, 52, 54, 56, 61, 62, 65, 70, 78, 80, 85, 89, 93, 95, 96, 98, 99, 100, 101, 102, 103, 108, 109, 110, 111, 112, 119, 1, 2, 4, 5, 10, 11, 17, 19, 20, 21, 25, 26, 29, 30, 31, 35, 40, 44, 45, 52, 55, 56, 59, 60, 61, 62, 64, 66, 67, 69, 70, 74, 77, 78, 81, 82, 85, 89, 96, 97, 99, 103, 106, 107, 111, 112, 113, 114, 115, 119, 1, 2, 5, 6, 8, 10, 14, 15, 17, 21, 23, 25, 29, 35, 38, 40, 43, 44, 45, 46, 49, 50, 54, 57, 61, 63, 64, 70, 71, 73, 75, 76, 77, 81, 84, 87, 90, 91, 92, 94, 95, 98, 100, 104, 105, 107, 109, 111, 112, 114, 115, 118, 1, 4, 6, 7, 8, 10, 11, 12, 14, 16, 26, 29, 30, 41, 42, 43, 44, 46, 54, 56, 60, 63, 64, 69, 70, 71, 72, 74, 79, 81, 82, 85, 86, 94, 96, 98, 101, 102, 103, 104, 106, 109, 110, 111, 113, 114, 115, 2, 4, 5, 6, 7, 8, 9, 10, 12, 13, 17, 21, 22, 27, 28, 29, 31, 32, 33, 35, 36, 38, 42, 46, 47, 49, 51, 54, 55, 56, 57, 59, 61, 62, 67, 71, 72, 73, 74, 78, 79, 82, 85, 86, 88, 89, 90, 94, 96, 97, 99, 107, 110, 3, 8, 9, 11, 12, 15, 16, 19, 21, 25, 27, 29, 43, 47, 48, 52, 53, 56, 57, 61, 64, 65, 67, 68, 69, 70, 71, 73, 74, 78, 79, 82, 86, 90, 91, 96, 97, 98, 100, 102, 103, 104, 106, 110, 113, 115, 119, 1, 2, 5, 8, 14, 15, 16, 17, 25, 26, 33, 36, 38, 39, 42, 46, 48, 50, 51, 52, 53, 54, 55, 62, 66, 67, 70, 73, 74, 76, 78, 80, 81, 82, 85, 86, 89, 90, 92, 93, 96, 100, 103, 108, 110, 111, 114, 115, 117, 1, 3, 5, 6, 9, 11, 17, 18, 22, 23, 25, 26, 30, 31, 33, 34, 36, 37, 39, 41, 44, 46, 53, 55, 57, 59, 60, 66, 67, 72, 73, 74, 77, 78, 80, 81, 82, 88, 89, 91, 95, 99, 100, 105, 110, 113, 114, 116, 118, 119, 0, 2, 4, 5, 9, 12, 17, 24, 29, 31, 33, 35, 36, 39, 40, 43, 44, 47, 48, 49, 53, 56, 57, 61, 63, 64, 65, 68, 70, 72, 74, 78, 81, 83, 85, 86, 88, 90, 91, 94, 96, 97, 99, 102, 103, 105, 108, 118, 1, 5, 7, 14, 18, 19, 22, 24, 28, 31, 33, 34, 35, 39, 41, 46, 48, 49, 50, 51, 55, 57, 58, 64, 67, 69, 71, 72, 73, 79, 80, 83, 84, 88, 95, 96, 99, 100, 103, 107, 108, 109, 111, 117, 119, 0, 1, 4, 5, 9, 11, 12, 14, 22, 23, 24, 30, 32, 33, 34, 35, 37, 40, 42, 43, 44, 47, 48, 49, 52, 54, 58, 60, 61, 62, 63, 65, 66, 69, 70, 76, 79, 82, 84, 89, 91, 98, 99, 102, 104, 105, 107, 108, 109, 111, 112, 113, 115, 118, 119, 2, 4, 10, 11, 15, 17, 18, 19, 24, 27, 28, 34, 35, 37, 38, 39, 41, 42, 43, 45, 46, 48, 49, 51, 57, 62, 65, 68, 69, 70, 71, 73, 78, 81, 83, 84, 88, 91, 95, 98, 103, 104, 107, 108, 109, 111, 116, 117, 118, 119, 3, 4, 6, 7, 11, 13, 14, 17, 19, 20, 23, 26, 29, 30, 31, 32, 34, 35, 39, 41, 48, 49, 50, 51, 53, 54, 60, 63, 68, 71, 73, 75, 78, 81, 84, 86, 88, 94, 96, 102, 105, 108, 109, 111, 112, 113, 116, 0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 14, 15, 21, 24, 26, 27, 29, 31, 32, 37, 39, 41, 42, 43, 44, 48, 50, 51, 54, 55, 58, 59, 61, 67, 68, 69, 77, 79, 82, 84, 86, 87, 91, 93, 95, 96, 97, 98, 99, 100, 102, 103, 104, 109, 110, 111, 113, 114, 116, 117, 1, 2, 3, 7, 8, 9, 10, 13, 14, 15, 16, 18, 19, 20, 21, 25, 26, 27, 29, 31, 36, 37, 38, 39, 40, 41, 46, 51, 52, 53, 54, 55, 57, 58, 59, 60, 61, 64, 66, 67, 68, 71, 73, 75, 76, 77, 82, 83, 84, 86, 87, 88, 91, 92, 103, 104, 107, 109, 110, 112, 115, 117, 118, 1, 2, 3, 6, 7, 11, 16, 17, 21, 26, 30, 31, 33, 41, 43, 45, 46, 56, 59, 61, 62, 63, 65, 66, 67, 68, 69, 70, 72, 73, 75, 79, 85, 87, 88, 93, 96, 97, 100, 102, 103, 107, 109, 112, 113, 0, 3, 4, 12, 14, 15, 16, 19, 21, 22, 23, 26, 30, 31, 33, 39, 41, 42, 49, 61, 65, 67, 69, 72, 77, 84, 87, 88, 89, 92, 93, 96, 100, 101, 103, 104, 105, 106, 108, 110, 111, 113, 114, 116, 118, 2, 3, 6, 10, 11, 14, 24, 30, 33, 36, 37, 40, 43, 44, 50, 51, 53, 54, 55, 57, 59, 60, 61, 65, 83, 84, 86, 89, 90, 95, 100, 101, 103, 105, 106, 107, 112, 113, 116, 117, 118, 119, 2, 6, 14, 16, 21, 23, 24, 26, 28, 35, 39, 40, 42, 44, 45, 51, 53, 55, 58, 59, 60, 64, 66, 67, 68, 70, 71, 73, 80, 81, 82, 85, 89, 91, 92, 94, 97, 103, 104, 105, 108, 109, 113, 115, 116, 2, 3, 6, 9, 11, 16, 25, 26, 27, 31, 33, 39, 40, 44, 47, 51, 56, 58, 61, 62, 67, 68, 69, 71, 73, 81, 83, 84, 85, 87, 90, 91, 95, 97, 98, 106, 112, 116, 117, 118, 119, 0, 3, 4, 5, 6, 14, 15, 18, 19, 21, 22, 23, 27, 28, 29, 30, 37, 39, 43, 44, 45, 46, 48, 53, 57, 58, 60, 62, 64, 70, 73, 77, 78, 81, 82, 84, 85, 88, 89, 90, 92, 93, 94, 101, 104, 108, 110, 112, 115, 117, 3, 12, 15, 21, 22, 25, 28, 30, 33, 34, 36, 40, 43, 46, 47, 51, 56, 64, 65, 66, 70, 74, 75, 76, 78, 79, 81, 84, 85, 87, 89, 90, 91, 96, 97, 98, 99, 100, 102, 103, 108, 110, 112, 114, 115, 119, 0, 2, 3, 4, 5, 7, 9, 11, 12, 14, 19, 21, 23, 25, 27, 28, 32, 33, 34, 41, 43, 46, 47, 48, 51, 52, 56, 60, 66, 68, 70, 71, 72, 73, 74, 81, 82, 87, 89, 95, 98, 100, 101, 103, 104, 105, 107, 109, 110, 111, 117, 118, 0, 2, 3, 5, 6, 7, 8, 10, 11, 12, 17, 18, 25, 26, 27, 29, 30, 31, 32, 36, 37, 41, 42, 44, 47, 52, 54, 55, 57, 59, 61, 62, 63, 65, 72, 73, 76, 77, 79, 80, 86, 87, 89, 90, 96, 101, 103, 111, 116, 118, 6, 7, 9, 11, 18, 19, 21, 25, 28, 29, 30, 33, 35, 38, 40, 42, 43, 44, 45, 46, 48, 50, 51, 53, 54, 55, 56, 60, 65, 68, 72, 73, 76, 77, 80, 82, 83, 89, 92, 93, 98, 100, 101, 102, 103, 104, 105, 107, 112, 115, 117, 119, 0, 1, 4, 9, 12, 15, 20, 21, 22, 24, 27, 28, 33, 34, 40, 41, 43, 44, 46, 47, 48, 52, 54, 56, 57, 60, 64, 68, 69, 72, 76, 79, 80, 83, 84, 85, 88, 94, 95, 99, 100, 109, 111, 113, 114, 115, 0, 7, 10, 11, 14, 15, 22, 23, 26, 32, 33, 35, 36, 37, 41, 42, 44, 46, 49, 50, 57, 60, 62, 63, 64, 68, 69, 76, 78, 79, 82, 85, 89, 92, 96, 97, 99, 101, 110, 111, 115, 117, 118, 10, 12, 13, 14, 15, 16, 19, 22, 23, 26, 27, 29, 33, 36, 37, 39, 43, 48, 52, 53, 54, 55, 56, 59, 60, 64, 65, 71, 73, 75, 76, 82, 84, 89, 98, 99, 104, 108, 110, 111, 115, 117, 118, 2, 4, 5, 6, 8, 9, 10, 14, 16, 21, 28, 29, 34, 37, 38, 39, 45, 50, 51, 52, 54, 55, 56, 57, 58, 60, 63, 67, 68, 69, 70, 73, 76, 77, 78, 81, 83, 94, 95, 98, 100, 101, 107, 108, 111, 114, 116, 118, 0, 3, 6, 8, 12, 18, 22, 32, 35, 36, 37, 39, 40, 41, 44, 51, 52, 55, 56, 57, 58, 60, 61, 62, 63, 68, 70, 75, 85, 87, 88, 92, 94, 96, 97, 100, 108, 109, 110, 111, 113, 114, 115, 117, 118, 1, 6, 11, 12, 13, 20, 23, 29, 31, 34, 35, 36, 37, 41, 42, 43, 45, 46, 49, 51, 53, 55, 58, 59, 60, 62, 64, 65, 66, 68, 69, 70, 74, 78, 80, 82, 88, 90, 95, 106, 107, 109, 114, 117, 118, 5, 13, 14, 15, 16, 17, 19, 20, 22, 26, 28, 30, 32, 34, 36, 44, 45, 47, 49, 50, 51, 54, 55, 60, 62, 64, 68, 75, 76, 77, 81, 82, 83, 85, 86, 91, 92, 98, 99, 108, 109, 110, 112, 113, 114, 1, 4, 9, 11, 18, 25, 27, 33, 34, 37, 38, 41, 43, 46, 51, 52, 54, 55, 64, 67, 76, 82, 83, 88, 91, 97, 103, 107, 109, 110, 111, 113, 114, 115, 116, 117, 1, 2, 5, 7, 8, 9, 12, 16, 20, 21, 24, 25, 30, 31, 37, 40, 43, 45, 46, 48, 49, 55, 56, 59, 60, 68, 69, 70, 72, 73, 74, 75, 77, 78, 81, 83, 86, 87, 89, 90, 91, 93, 95, 97, 98, 100, 101, 103, 104, 106, 107, 108, 109, 113, 117, 0, 1, 2, 10, 19, 20, 21, 30, 33, 34, 37, 38, 42, 45, 50, 52, 57, 58, 61, 62, 63, 66, 67, 69, 70, 71, 73, 76, 79, 81, 83, 84, 90, 91, 92, 93, 98, 102, 103, 107, 109, 111, 116, 117, 0, 3, 4, 13, 14, 16, 18, 21, 23, 24, 26, 29, 31, 32, 34, 36, 43, 45, 48, 50, 54, 56, 57, 59, 60, 63, 67, 68, 72, 73, 74, 81, 83, 94, 96, 97, 98, 99, 100, 108, 110, 111, 115, 117, 118, 1, 2, 4, 5, 9, 10, 11, 12, 13, 14, 15, 17, 22, 25, 27, 28, 29, 35, 37, 39, 41, 42, 43, 44, 46, 49, 51, 57, 58, 59, 65, 67, 68, 72, 75, 79, 81, 84, 98, 100, 104, 107, 108, 109, 114, 119, 0, 1, 2, 7, 10, 11, 12, 17, 22, 23, 24, 27, 28, 29, 30, 31, 32, 33, 39, 40, 43, 44, 48, 51, 52, 55, 56, 57, 58, 59, 60, 63, 66, 67, 69, 70, 73, 77, 79, 80, 81, 84, 85, 86, 87, 90, 95, 97, 100, 102, 103, 105, 107, 108, 109, 111, 113, 114, 116, 118, 0, 2, 3, 7, 10, 12, 14, 15, 18, 19, 20, 21, 26, 27, 30, 32, 37, 38, 41, 42, 44, 46, 50, 53, 55, 60, 61, 67, 69, 71, 73, 78, 80, 84, 85, 88, 89, 90, 91, 92, 94, 95, 97, 98, 102, 103, 107, 108, 114, 118, 4, 6, 9, 10, 11, 14, 15, 16, 17, 19, 24, 27, 28, 30, 34, 35, 39, 40, 43, 46, 53, 54, 55, 65, 66, 68, 69, 77, 81, 83, 84, 85, 87, 93, 95, 98, 102, 104, 108, 110, 111, 112, 114, 115, 116, 2, 4, 5, 6, 8, 10, 14, 19, 20, 21, 22, 23, 25, 29, 32, 34, 35, 41, 44, 47, 53, 55, 56, 57, 58, 59, 63, 69, 74, 75, 78, 83, 87, 93, 94, 97, 98, 100, 105, 106, 108, 110, 115, 118, 119, 0, 9, 13, 15, 19, 20, 21, 22, 24, 27, 28, 29, 33, 35, 40, 41, 43, 46, 47, 53, 55, 57, 61, 63, 70, 77, 78, 80, 83, 86, 94, 95, 102, 108, 109, 110, 113, 114, 115, 116, 117, 2, 4, 5, 6, 11, 12, 16, 21, 22, 34, 35, 37, 40, 41, 43, 44, 47, 48, 52, 53, 55, 57, 59, 62, 63, 66, 69, 75, 77, 80, 82, 83, 84, 85, 86, 87, 92, 93, 98, 102, 103, 106, 108, 110, 113, 115, 116, 119, 11, 12, 14, 16, 18, 21, 23, 27, 29, 33, 35, 37, 39, 40, 43, 48, 49, 51, 54, 58, 61, 71, 73, 76, 77, 79, 82, 83, 89, 91, 92, 93, 94, 95, 97, 99, 101, 104, 105, 106, 108, 111, 112, 113, 116, 118, 8, 11, 14, 16, 17, 20, 21, 26, 27, 29, 32, 34, 35, 36, 37, 39, 46, 47, 49, 50, 52, 55, 56, 58, 62, 66, 69, 70, 77, 78, 81, 83, 89, 96, 97, 99, 108, 110, 112, 115, 116, 119, 5, 6, 8, 10, 12, 17, 24, 25, 26, 27, 36, 42, 43, 44, 48, 50, 53, 56, 62, 66, 67, 72, 76, 78, 80, 86, 87, 88, 90, 91, 92, 94, 96, 98, 100, 101, 103, 107, 109, 113, 115, 1, 2, 3, 6, 9, 16, 18, 21, 25, 26, 28, 31, 38, 47, 48, 49, 51, 55, 58, 59, 60, 63, 65, 66, 68, 69, 70, 72, 73, 79, 82, 83, 85, 88, 89, 90, 91, 93, 101, 103, 104, 107, 110, 111, 115, 117, 0, 2, 3, 6, 8, 10, 11, 15, 17, 20, 23, 24, 25, 27, 28, 33, 34, 35, 36, 37, 38, 39, 40, 42, 47, 49, 53, 54, 61, 62, 65, 75, 79, 80, 81, 83, 84, 85, 90, 92, 96, 102, 103, 105, 107, 109, 110, 113, 117, 0, 9, 12, 13, 16, 18, 22, 23, 25, 27, 28, 29, 33, 35, 37, 39, 43, 44, 48, 54, 55, 56, 57, 58, 62, 70, 72, 74, 76, 77, 78, 79, 80, 81, 87, 91, 92, 93, 95, 101, 102, 107, 112, 113, 115, 118, 119, 0, 1, 3, 4, 8, 9, 12, 15, 18, 19, 20, 27, 31, 34, 35, 36, 43, 46, 49, 52, 55, 61, 63, 64, 74, 76, 79, 81, 91, 97, 99, 107, 108, 111, 112, 115, 116, 117, 119, 0, 2, 4, 6, 7, 8, 9, 15, 20, 24, 26, 27, 29, 34, 35, 37, 39, 40, 41, 43, 45, 48, 52, 54, 55, 56, 57, 58, 59, 61, 64, 72, 77, 78, 82, 85, 87, 92, 96, 97, 98, 99, 101, 105, 108, 110, 112, 113, 115, 116, 117, 4, 6, 8, 10, 11, 12, 15, 18, 20, 22, 25, 28, 34, 35, 41, 44, 45, 51, 52, 55, 56, 60, 61, 74, 78, 80, 84, 89, 90, 92, 95, 101, 104, 105, 106, 109, 110, 113, 114, 115, 118, 119, 4, 5, 7, 8, 10, 14, 15, 16, 17, 19, 20, 22, 31, 33, 34, 36, 39, 44, 47, 49, 51, 52, 55, 58, 63, 65, 66, 69, 73, 75, 76, 77, 78, 80, 83, 86, 89, 92, 95, 96, 97, 102, 103, 106, 109, 113, 114, 117, 0, 2, 4, 5, 10, 11, 12, 14, 19, 22, 26, 28, 32, 35, 36, 38, 39, 45, 46, 47, 48, 51, 52, 53, 56, 60, 62, 64, 66, 70, 72, 74, 77, 80, 83, 84, 87, 90, 91, 95, 102, 105, 106, 107, 110, 111, 115, 116, 119, 0, 2, 6, 11, 13, 14, 23, 25, 29, 33, 35, 36, 41, 42, 45, 46, 47, 51, 52, 55, 58, 63, 65, 66, 72, 74, 78, 80, 83, 87, 91, 93, 96, 99, 101, 103, 104, 106, 108, 109, 115, 0, 1, 2, 3, 4, 7, 10, 11, 12, 15, 19, 23, 26, 27, 29, 32, 34, 39, 44, 46, 49, 52, 54, 55, 56, 57, 60, 63, 67, 68, 72, 75, 77, 80, 84, 87, 89, 91, 92, 93, 94, 95, 101, 102, 107, 108, 110, 113, 114, 0, 1, 6, 12, 14, 17, 19, 21, 22, 23, 24, 25, 30, 33, 36, 38, 43, 44, 47, 49, 50, 52, 53, 58, 59, 62, 63, 65, 68, 71, 73, 75, 79, 82, 84, 85, 86, 87, 88, 90, 100, 101, 103, 109, 112, 113, 114, 115, 118, 1, 4, 7, 9, 11, 12, 14, 15, 18, 21, 22, 27, 30, 33, 34, 40, 41, 42, 43, 52, 53, 57, 59, 60, 64, 68, 70, 72, 79, 81, 84, 86, 87, 92, 93, 95, 96, 99, 101, 104, 110, 111, 112, 114, 115, 117, 118, 119, 0, 1, 2, 4, 6, 7, 10, 15, 16, 21, 24, 26, 27, 28, 35, 37, 44, 48, 50, 52, 53, 56, 59, 60, 62, 63, 65, 66, 67, 69, 70, 75, 78, 79, 81, 83, 84, 85, 86, 87, 89, 91, 92, 94, 98, 102, 105, 111, 119, 1, 6, 8, 9, 12, 17, 18, 20, 22, 32, 34, 38, 39, 40, 44, 46, 49, 51, 52, 53, 55, 57, 59, 60, 61, 63, 65, 69, 70, 72, 73, 74, 77, 78, 79, 80, 81, 83, 87, 89, 92, 94, 96, 97, 98, 99, 105, 106, 112, 114, 116, 117, 118, 119, 4, 6, 8, 9, 12, 13, 15, 17, 20, 21, 22, 27, 28, 30, 33, 34, 35, 38, 39, 41, 42, 43, 44, 45, 46, 47, 53, 54, 55, 59, 61, 66, 68, 69, 71, 72, 73, 77, 78, 80, 81, 85, 86, 87, 88, 89, 94, 97, 100, 102, 105, 106, 108, 110, 115, 116, 2, 4, 5, 10, 16, 17, 20, 36, 38, 40, 42, 43, 46, 48, 49, 52, 55, 57, 58, 59, 60, 62, 63, 65, 67, 68, 69, 75, 77, 78, 79, 80, 84, 88, 90, 92, 95, 97, 99, 101, 102, 103, 104, 111, 112, 113, 114, 116, 119, 2, 4, 5, 7, 13, 14, 20, 21, 23, 27, 28, 29, 31, 32, 33, 34, 35, 46, 47, 52, 60, 63, 65, 67, 69, 73, 74, 76, 79, 81, 83, 84, 85, 92, 95, 97, 98, 101, 103, 106, 107, 109, 110, 118, 2, 4, 5, 9, 12, 17, 20, 21, 22, 23, 24, 27, 30, 32, 34, 35, 41, 42, 43, 48, 49, 50, 54, 55, 60, 63, 64, 66, 67, 68, 69, 70, 71, 74, 75, 81, 83, 85, 87, 89, 91, 97, 102, 106, 109, 110, 112, 117, 119, 16, 17, 18, 24, 33, 35, 36, 37, 39, 41, 42, 46, 48, 54, 56, 57, 62, 64, 67, 73, 75, 76, 77, 81, 82, 84, 87, 88, 89, 90, 92, 94, 95, 97, 100, 101, 103, 107, 108, 116, 118, 0, 2, 6, 7, 8, 11, 13, 16, 19, 20, 23, 26, 28, 33, 35, 36, 37, 40, 42, 43, 44, 45, 47, 48, 50, 51, 52, 55, 57, 60, 63, 64, 65, 67, 68, 70, 72, 77, 81, 83, 84, 86, 87, 88, 89, 96, 98, 100, 102, 103, 106, 108, 110, 111, 112, 113, 117, 118, 119, 1, 5, 7, 8, 9, 10, 13, 15, 16, 17, 20, 24, 25, 31, 32, 36, 38, 39, 41, 43, 50, 51, 60, 64, 65, 66, 68, 69, 70, 71, 72, 75, 76, 85, 87, 88, 91, 92, 93, 94, 95, 96, 100, 101, 105, 114, 116, 117, 0, 1, 4, 6, 9, 12, 14, 15, 18, 19, 20, 22, 23, 26, 27, 31, 32, 35, 36, 37, 39, 48, 59, 60, 61, 65, 67, 68, 71, 74, 77, 78, 85, 87, 95, 97, 101, 102, 105, 106, 107, 111, 112, 113, 114, 116, 2, 6, 7, 10, 19, 23, 25, 26, 27, 28, 33, 35, 37, 38, 42, 43, 44, 45, 48, 49, 50, 54, 59, 62, 64, 66, 67, 73, 74, 76, 78, 79, 87, 89, 97, 101, 104, 105, 107, 109, 110, 115, 116, 118, 119, 3, 6, 7, 8, 10, 12, 13, 14, 15, 17, 18, 22, 24, 25, 31, 32, 35, 37, 46, 49, 55, 56, 57, 62, 64, 67, 68, 69, 72, 74, 80, 81, 83, 84, 88, 90, 91, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 109, 111, 113, 115, 119, 1, 2, 4, 5, 6, 8, 10, 13, 15, 16, 18, 21, 25, 28, 33, 34, 36, 37, 41, 46, 51, 56, 59, 60, 61, 62, 68, 70, 71, 80, 83, 84, 85, 86, 87, 88, 94, 96, 98, 100, 103, 105, 109, 113, 116, 0, 2, 3, 5, 13, 14, 17, 18, 21, 24, 25, 26, 35, 38, 39, 40, 41, 43, 51, 62, 66, 68, 70, 74, 77, 78, 81, 84, 85, 89, 91, 94, 98, 99, 100, 101, 103, 104, 108, 109, 110, 111, 113, 115, 116, 2, 9, 14, 18, 23, 29, 31, 35, 36, 40, 41, 43, 45, 46, 47, 50, 51, 52, 53, 57, 60, 65, 68, 70, 73, 74, 78, 79, 84, 88, 92, 96, 100, 102, 103, 104, 106, 107, 110, 111, 113, 114, 118, 2, 5, 13, 18, 19, 21, 25, 27, 28, 29, 31, 35, 36, 39, 41, 48, 49, 51, 57, 60, 64, 65, 67, 69, 70, 76, 78, 82, 85, 86, 87, 88, 92, 93, 94, 97, 99, 104, 106, 108, 110, 112, 113, 114, 116, 1, 2, 4, 7, 9, 10, 15, 17, 29, 30, 35, 37, 39, 43, 45, 46, 47, 53, 54, 58, 61, 68, 73, 74, 75, 76, 77, 82, 83, 84, 86, 88, 89, 92, 93, 94, 96, 97, 101, 102, 108, 109, 110, 113, 116, 117, 118, 119, 2, 3, 6, 7, 9, 13, 18, 21, 22, 23, 24, 25, 27, 29, 31, 33, 34, 36, 39, 40, 41, 42, 45, 49, 50, 51, 52, 56, 57, 70, 74, 75, 76, 79, 81, 83, 85, 86, 87, 89, 90, 92, 95, 97, 99, 100, 102, 103, 106, 108, 112, 116, 117, 0, 4, 5, 7, 9, 10, 13, 16, 17, 19, 22, 25, 26, 32, 33, 34, 41, 44, 46, 49, 57, 59, 66, 72, 73, 77, 78, 82, 86, 90, 95, 96, 98, 100, 103, 104, 107, 108, 109, 117, 118, 2, 3, 4, 5, 6, 10, 13, 18, 19, 20, 24, 26, 29, 36, 39, 42, 47, 53, 55, 56, 58, 61, 62, 63, 64, 68, 69, 71, 74, 76, 81, 87, 88, 90, 94, 101, 102, 105, 107, 112, 113, 118, 2, 5, 6, 8, 10, 13, 15, 18, 24, 29, 30, 37, 42, 43, 45, 47, 50, 51, 56, 58, 69, 73, 74, 75, 76, 78, 80, 81, 83, 84, 87, 88, 89, 90, 95, 100, 103, 104, 112, 115, 118, 119, 1, 8, 11, 12, 15, 19, 21, 23, 33, 40, 42, 44, 46, 48, 49, 52, 55, 56, 59, 60, 61, 63, 65, 67, 73, 75, 76, 77, 78, 79, 84, 87, 93, 94, 95, 97, 101, 105, 106, 109, 113, 116, 118, 0, 1, 4, 8, 12, 13, 14, 15, 16, 18, 22, 24, 25, 26, 30, 32, 39, 46, 47, 48, 49, 55, 58, 59, 60, 61, 63, 65, 66, 68, 70, 71, 72, 73, 74, 89, 92, 93, 94, 95, 96, 99, 100, 102, 105, 108, 109, 116, 118, 119, 1, 2, 3, 6, 10, 15, 16, 21, 22, 27, 30, 31, 32, 33, 36, 37, 39, 42, 43, 44, 45, 50, 55, 57, 58, 66, 70, 73, 76, 80, 82, 84, 85, 87, 88, 90, 95, 97, 101, 102, 104, 109, 112, 114, 116, 117, 118, 0, 3, 7, 9, 12, 14, 15, 16, 17, 19, 23, 28, 29, 30, 33, 39, 43, 45, 46, 48, 49, 54, 59, 60, 61, 62, 64, 65, 68, 73, 76, 78, 79, 80, 91, 92, 95, 97, 98, 101, 102, 103, 104, 105, 108, 112, 116, 119, 0, 5, 6, 7, 9, 11, 13, 14, 15, 16, 17, 22, 27, 29, 30, 34, 35, 37, 39, 40, 45, 46, 48, 50, 53, 56, 58, 63, 66, 68, 71, 73, 76, 77, 84, 88, 89, 90, 100, 102, 105, 109, 117, 118, 119, 1, 2, 5, 7, 10, 17, 19, 20, 21, 26, 30, 32, 36, 37, 39, 41, 43, 49, 50, 52, 53, 55, 57, 59, 61, 65, 66, 67, 68, 69, 71, 73, 74, 75, 81, 82, 83, 84, 86, 89, 91, 92, 95, 100, 101, 104, 107, 108, 110, 112, 113, 114, 115, 2, 5, 6, 13, 17, 18, 22, 23, 25, 27, 28, 29, 31, 33, 34, 38, 40, 42, 46, 47, 49, 52, 53, 55, 69, 77, 80, 90, 92, 94, 96, 98, 103, 104, 105, 107, 110, 113, 114, 118, 119, 0, 2, 3, 8, 10, 12, 14, 18, 19, 20, 24, 25, 27, 28, 36, 40, 42, 43, 48, 49, 53, 57, 61, 66, 67, 68, 69, 70, 71, 73, 74, 75, 83, 85, 87, 89, 92, 94, 95, 96, 97, 107, 108, 109, 111, 112, 114, 118, 119, 1, 3, 4, 5, 19, 20, 22, 23, 24, 25, 26, 28, 31, 32, 34, 41, 42, 43, 45, 47, 48, 49, 50, 52, 53, 54, 55, 56, 60, 61, 64, 65, 66, 72, 77, 78, 79, 80, 83, 85, 87, 90, 91, 92, 97, 98, 100, 102, 103, 105, 109, 110, 113, 115, 118, 0, 1, 3, 6, 13, 14, 15, 16, 20, 24, 26, 28, 30, 31, 34, 36, 38, 39, 45, 48, 53, 59, 60, 61, 62, 65, 68, 69, 71, 72, 73, 74, 75, 77, 81, 83, 93, 95, 97, 98, 99, 100, 101, 103, 107, 4, 6, 7, 10, 13, 16, 17, 20, 23, 25, 26, 28, 29, 32, 36, 38, 45, 52, 64, 68, 69, 70, 72, 75, 77, 78, 80, 81, 82, 83, 84, 97, 99, 100, 102, 104, 110, 114, 115, 116, 118, 3, 5, 6, 7, 8, 11, 13, 15, 19, 22, 23, 29, 32, 34, 35, 37, 39, 40, 43, 50, 52, 54, 55, 61, 68, 72, 74, 75, 79, 83, 85, 91, 92, 93, 96, 100, 101, 104, 105, 106, 107, 112, 113, 114, 116, 2, 3, 4, 8, 9, 10, 12, 13, 17, 19, 20, 26, 27, 31, 32, 33, 34, 36, 37, 38, 41, 43, 46, 49, 50, 53, 54, 56, 57, 59, 60, 62, 70, 72, 74, 77, 78, 83, 85, 86, 88, 90, 95, 99, 101, 103, 105, 106, 108, 109, 110, 111, 112, 113, 115, 116, 117, 119, 0, 3, 8, 13, 14, 15, 16, 18, 20, 21, 29, 31, 33, 34, 38, 39, 40, 41, 42, 51, 52, 55, 57, 63, 64, 65, 69, 70, 78, 80, 83, 85, 86, 88, 105, 107, 108, 109, 113, 114, 115, 116, 119, 2, 3, 5, 8, 10, 14, 15, 19, 20, 26, 27, 28, 30, 31, 32, 33, 34, 37, 39, 40, 44, 46, 47, 50, 51, 54, 59, 61, 62, 66, 68, 69, 70, 71, 75, 76, 78, 79, 83, 86, 88, 93, 94, 97, 99, 107, 109, 111, 114, 116, 1, 3, 4, 5, 7, 8, 10, 12, 13, 14, 15, 16, 22, 23, 24, 29, 34, 38, 44, 48, 51, 54, 58, 65, 67, 70, 77, 80, 81, 87, 88, 91, 92, 94, 98, 103, 106, 107, 110, 114, 116, 118, 0, 6, 7, 8, 9, 13, 14, 16, 18, 25, 26, 29, 33, 35, 38, 40, 41, 45, 46, 50, 52, 58, 60, 61, 62, 63, 66, 67, 70, 72, 75, 79, 81, 88, 90, 91, 92, 98, 100, 101, 102, 103, 104, 105, 106, 111, 113, 118, 119, 1, 2, 6, 7, 12, 16, 25, 27, 36, 37, 39, 43, 45, 46, 47, 51, 53, 55, 58, 59, 62, 70, 72, 73, 74, 76, 78, 79, 81, 89, 91, 92, 93, 94, 95, 97, 98, 100, 101, 102, 103, 108, 115, 118, 1, 7, 13, 14, 22, 24, 30, 32, 36, 38, 46, 47, 49, 50, 51, 54, 56, 60, 67, 70, 71, 74, 75, 77, 78, 80, 81, 82, 83, 87, 90, 96, 97, 99, 103, 104, 106, 107, 110, 111, 116, 117, 119, 3, 5, 8, 11, 12, 13, 15, 17, 19, 20, 21, 25, 27, 29, 32, 34, 36, 37, 41, 45, 46, 47, 48, 60, 61, 63, 64, 66, 70, 71, 73, 74, 77, 79, 87, 88, 89, 91, 93, 94, 95, 100, 101, 102, 104, 105, 106, 112, 116, 119, 0, 6, 10, 14, 20, 21, 22, 24, 27, 28, 31, 36, 37, 38, 40, 43, 46, 52, 53, 57, 58, 61, 63, 64, 67, 69, 73, 75, 77, 78, 80, 81, 87, 89, 91, 95, 97, 100, 101, 105, 107, 108, 110, 112, 114, 117, 1, 10, 11, 15, 19, 31, 33, 37, 38, 41, 42, 44, 45, 46, 47, 49, 50, 51, 55, 59, 60, 66, 70, 72, 73, 74, 76, 82, 83, 86, 92, 106, 107, 108, 110, 113, 114, 115, 117, 0, 4, 8, 10, 11, 14, 15, 17, 29, 33, 36, 38, 41, 44, 48, 50, 53, 54, 57, 58, 61, 62, 64, 67, 68, 73, 77, 78, 80, 81, 84, 86, 88, 89, 92, 98, 100, 102, 106, 108, 113, 116, 118, 0, 2, 5, 6, 11, 12, 14, 17, 19, 20, 21, 22, 23, 29, 32, 33, 39, 43, 50, 53, 54, 62, 65, 67, 68, 69, 70, 71, 74, 79, 80, 84, 85, 87, 89, 90, 91, 92, 94, 96, 97, 104, 109, 112, 114, 117, 118, 119, 0, 1, 9, 11, 13, 14, 20, 21, 22, 26, 27, 32, 33, 36, 37, 38, 39, 41, 42, 46, 52, 53, 55, 57, 59, 63, 67, 74, 75, 77, 78, 80, 81, 86, 87, 88, 95, 98, 99, 103, 108, 113, 118, 1, 2, 7, 9, 11, 12, 15, 16, 20, 23, 28, 29, 30, 31, 34, 40, 42, 46, 47, 50, 51, 52, 55, 59, 62, 64, 65, 66, 67, 70, 71, 76, 78, 81, 88, 89, 90, 91, 93, 94, 95, 99, 100, 101, 104, 107, 108, 110, 115, 118, 2, 4, 9, 12, 16, 19, 20, 21, 28, 31, 32, 33, 38, 49, 51, 53, 55, 61, 65, 66, 67, 68, 83, 85, 86, 87, 91, 93, 96, 97, 98, 99, 102, 103, 107, 108, 109, 114, 116, 117, 4, 5, 10, 11, 15, 16, 19, 20, 21, 26, 28, 30, 35, 37, 39, 41, 48, 49, 50, 51, 56, 57, 58, 59, 61, 70, 74, 75, 76, 77, 79, 80, 82, 85, 87, 93, 97, 101, 102, 103, 104, 107, 110, 113, 116, 3, 4, 5, 7, 16, 22, 24, 25, 29, 33, 37, 38, 39, 42, 43, 52, 54, 57, 59, 60, 63, 64, 65, 67, 71, 73, 77, 78, 79, 80, 84, 87, 90, 91, 93, 99, 106, 107, 112, 114, 115, 117, 118, 119, 0, 2, 5, 7, 8, 11, 14, 15, 16, 19, 20, 21, 22, 24, 25, 26, 27, 28, 29, 30, 36, 39, 40, 41, 43, 44, 45, 46, 48, 49, 53, 54, 55, 57, 58, 60, 62, 63, 64, 70, 72, 75, 78, 83, 84, 86, 87, 90, 91, 92, 93, 99, 104, 106, 109, 110, 111, 115, 3, 4, 8, 9, 14, 15, 19, 20, 21, 25, 26, 28, 29, 30, 31, 34, 39, 46, 47, 48, 49, 53, 55, 57, 59, 60, 61, 64, 66, 67, 70, 71, 76, 83, 87, 91, 97, 98, 109, 110, 1, 3, 4, 6, 13, 15, 19, 24, 25, 28, 29, 32, 34, 38, 42, 43, 44, 45, 47, 58, 60, 63, 65, 72, 73, 75, 77, 81, 82, 86, 87, 90, 91, 98, 99, 100, 106, 107, 109, 110, 111, 114, 118, 12, 13, 15, 18, 19, 20, 21, 26, 27, 28, 29, 31, 34, 38, 42, 43, 44, 52, 53, 54, 56, 59, 63, 67, 68, 69, 72, 73, 76, 80, 81, 83, 87, 88, 91, 94, 97, 98, 102, 105, 106, 108, 109, 111, 112, 114, 115, 117, 118, 3, 6, 8, 10, 11, 12, 13, 14, 15, 19, 20, 22, 23, 26, 28, 34, 35, 37, 39, 41, 42, 44, 45, 46, 50, 53, 55, 57, 59, 60, 61, 63, 64, 65, 72, 74, 78, 84, 85, 87, 88, 89, 90, 92, 93, 100, 102, 104, 107, 109, 113, 119, 4, 5, 7, 12, 15, 16, 19, 20, 21, 22, 24, 26, 27, 29, 31, 32, 34, 37, 39, 41, 45, 46, 49, 50, 52, 53, 54, 59, 60, 61, 68, 70, 71, 75, 77, 78, 92, 94, 96, 100, 103, 104, 106, 107, 108, 111, 116, 118, 2, 5, 7, 20, 22, 25, 31, 33, 35, 36, 37, 40, 41, 44, 46, 49, 50, 52, 54, 57, 58, 59, 60, 61, 74, 76, 77, 78, 80, 82, 83, 84, 86, 89, 94, 95, 99, 105, 107, 110, 114, 116, 2, 4, 8, 12, 13, 14, 16, 18, 19, 20, 23, 24, 25, 26, 27, 28, 31, 33, 34, 37, 38, 39, 40, 41, 45, 49, 50, 53, 57, 62, 65, 69, 71, 72, 75, 80, 81, 82, 83, 85, 86, 87, 93, 94, 95, 96, 97, 100, 101, 102, 108, 111, 112, 113, 117, 0, 4, 6, 8, 11, 12, 13, 16, 23, 24, 25, 26, 30, 32, 33, 37, 38, 40, 43, 45, 46, 48, 52, 56, 62, 64, 66, 67, 68, 69, 70, 71, 76, 77, 86, 87, 88, 90, 93, 96, 101, 102, 104, 105, 109, 111, 112, 114, 115, 116, 117, 1, 9, 16, 18, 21, 27, 28, 31, 33, 39, 40, 42, 43, 47, 49, 51, 55, 57, 58, 60, 63, 65, 67, 68, 69, 71, 73, 74, 77, 80, 82, 85, 88, 90, 91, 92, 97, 100, 102, 107, 108, 110, 111, 112, 115, 116, 117, 0, 3, 4, 5, 10, 11, 13, 16, 17, 20, 21, 22, 26, 27, 31, 34, 35, 36, 40, 44, 45, 49, 51, 52, 55, 57, 60, 64, 66, 71, 73, 77, 78, 79, 80, 84, 89, 90, 92, 94, 95, 98, 101, 102, 104, 106, 107, 109, 111, 113, 1, 2, 3, 5, 6, 7, 16, 20, 24, 28, 29, 30, 36, 46, 48, 50, 59, 60, 65, 70, 71, 72, 76, 83, 85, 86, 90, 92, 93, 94, 95, 97, 98, 99, 100, 102, 104, 105, 106, 110, 113, 2, 4, 6, 11, 15, 17, 20, 22, 23, 25, 28, 30, 32, 33, 37, 38, 42, 43, 45, 46, 47, 50, 52, 54, 55, 56, 60, 63, 64, 67, 69, 70, 74, 75, 77, 79, 80, 81, 84, 88, 89, 94, 96, 98, 101, 105, 107, 108, 110, 113, 114, 115, 117, 3, 4, 6, 7, 8, 14, 15, 18, 19, 22, 23, 25, 27, 29, 30, 35, 37, 38, 40, 43, 45, 46, 50, 51, 52, 57, 62, 64, 67, 73, 79, 80, 81, 84, 85, 87, 88, 96, 97, 98, 102, 109, 110, 111, 113, 114, 116, 117, 3, 6, 10, 11, 16, 17, 21, 22, 26, 28, 32, 33, 34, 37, 42, 45, 47, 49, 54, 56, 59, 74, 76, 77, 78, 80, 82, 85, 86, 89, 94, 101, 102, 107, 108, 111, 113, 114, 115, 116, 118, 1, 3, 5, 14, 15, 16, 17, 18, 21, 23, 26, 29, 30, 32, 33, 35, 37, 38, 40, 41, 44, 46, 47, 55, 56, 63, 67, 76, 80, 83, 85, 86, 90, 91, 94, 96, 97, 98, 99, 100, 104, 106, 107, 110, 117, 0, 3, 4, 8, 11, 12, 17, 19, 22, 23, 27, 29, 30, 32, 33, 35, 36, 37, 38, 39, 40, 47, 53, 55, 56, 57, 58, 61, 64, 65, 68, 71, 73, 74, 75, 77, 80, 83, 84, 87, 95, 101, 104, 107, 112, 114, 115, 117, 118, 1, 2, 4, 5, 8, 9, 15, 17, 18, 19, 21, 23, 24, 26, 27, 31, 33, 38, 39, 41, 42, 47, 53, 55, 56, 65, 79, 82, 85, 88, 89, 95, 98, 99, 104, 107, 111, 112, 114, 116, 4, 5, 8, 13, 15, 16, 17, 18, 21, 28, 30, 33, 37, 39, 44, 49, 53, 55, 56, 58, 63, 65, 67, 68, 69, 70, 71, 73, 74, 75, 79, 81, 82, 83, 85, 86, 87, 90, 91, 92, 93, 96, 100, 101, 102, 103, 106, 107, 110, 111, 117, 0, 1, 8, 9, 10, 13, 16, 17, 18, 25, 26, 27, 28, 30, 31, 33, 35, 37, 38, 41, 44, 46, 48, 49, 50, 51, 55, 57, 60, 64, 66, 69, 70, 72, 73, 77, 85, 86, 87, 93, 94, 100, 102, 104, 105, 106, 114, 115, 116, 117, 119, 0, 1, 2, 5, 7, 9, 12, 15, 16, 19, 20, 22, 25, 26, 28, 29, 36, 37, 44, 47, 48, 50, 54, 59, 60, 63, 64, 66, 76, 80, 85, 86, 92, 97, 98, 100, 102, 104, 105, 107, 109, 111, 113, 116, 119, 1, 6, 7, 9, 10, 15, 17, 21, 22, 23, 24, 27, 30, 31, 34, 38, 39, 41, 43, 45, 48, 50, 55, 61, 62, 65, 66, 67, 70, 71, 72, 75, 80, 86, 90, 91, 92, 94, 99, 100, 101, 103, 105, 106, 107, 116, 119, 1, 5, 11, 12, 14, 17, 18, 21, 22, 25, 28, 30, 31, 32, 35, 36, 40, 41, 46, 51, 53, 56, 59, 60, 62, 63, 67, 69, 71, 74, 75, 79, 82, 84, 86, 88, 89, 91, 94, 95, 96, 97, 103, 104, 107, 112, 113, 118, 119, 0, 2, 4, 5, 8, 11, 12, 20, 26, 27, 35, 42, 47, 49, 51, 54, 56, 58, 69, 72, 74, 75, 77, 82, 85, 86, 90, 91, 92, 97, 105, 108, 110, 112, 113, 115, 116, 119, 0, 1, 2, 4, 5, 7, 9, 10, 12, 13, 14, 20, 21, 22, 23, 26, 30, 41, 44, 49, 50, 51, 53, 54, 58, 62, 65, 66, 70, 71, 73, 76, 78, 86, 88, 89, 91, 92, 95, 96, 100, 102, 104, 105, 106, 107, 109, 110, 113, 116, 117, 118, 119, 3, 5, 11, 12, 14, 19, 24, 26, 27, 28, 29, 32, 33, 36, 41, 44, 55, 57, 58, 63, 65, 66, 67, 69, 70, 71, 75, 76, 79, 80, 82, 84, 85, 86, 91, 93, 104, 106, 109, 110, 113, 116, 1, 5, 7, 10, 11, 12, 13, 14, 15, 18, 20, 22, 23, 29, 30, 31, 32, 37, 38, 39, 48, 49, 50, 53, 58, 61, 63, 64, 68, 69, 70, 75, 79, 80, 83, 85, 90, 99, 100, 111, 112, 113, 1, 4, 6, 7, 10, 13, 15, 17, 24, 25, 27, 30, 34, 37, 41, 43, 44, 45, 46, 48, 49, 50, 52, 53, 56, 60, 62, 63, 64, 66, 67, 68, 69, 71, 72, 81, 86, 87, 98, 100, 105, 108, 109, 111, 115, 117, 118, 119, 1, 3, 4, 12, 14, 16, 17, 20, 24, 29, 30, 32, 33, 34, 36, 39, 40, 42, 43, 44, 45, 47, 48, 50, 51, 52, 53, 54, 61, 66, 67, 69, 70, 71, 73, 74, 75, 76, 77, 82, 85, 86, 92, 97, 102, 103, 116, 7, 10, 12, 19, 22, 25, 28, 33, 35, 37, 41, 43, 44, 45, 47, 50, 52, 53, 56, 59, 60, 61, 62, 64, 66, 69, 73, 74, 75, 77, 78, 79, 81, 82, 83, 87, 90, 93, 100, 101, 102, 103, 106, 107, 112, 114, 117, 1, 3, 4, 5, 15, 16, 17, 21, 24, 26, 30, 35, 37, 39, 40, 41, 43, 44, 49, 52, 53, 60, 63, 65, 67, 68, 73, 78, 84, 85, 92, 96, 101, 108, 1, 3, 4, 7, 12, 18, 19, 23, 24, 25, 26, 27, 34, 36, 38, 39, 40, 43, 50, 54, 56, 57, 58, 62, 65, 71, 73, 74, 78, 82, 85, 91, 98, 99, 102, 103, 107, 108, 110, 114, 116, 119, 0, 1, 4, 7, 8, 11, 14, 15, 18, 25, 27, 29, 30, 31, 38, 40, 41, 43, 46, 48, 49, 53, 55, 58, 61, 62, 67, 71, 72, 76, 85, 86, 92, 95, 96, 97, 101, 104, 105, 106, 114, 2, 3, 5, 8, 11, 13, 14, 19, 21, 22, 27, 38, 39, 42, 43, 45, 47, 53, 54, 60, 65, 69, 70, 71, 74, 77, 79, 85, 90, 91, 92, 93, 96, 98, 104, 107, 108, 109, 110, 111, 113, 115, 117, 119, 1, 4, 5, 8, 9, 11, 14, 16, 19, 20, 21, 23, 26, 27, 34, 35, 36, 38, 39, 40, 42, 45, 46, 47, 48, 53, 56, 57, 59, 62, 64, 66, 70, 72, 73, 75, 77, 85, 87, 90, 93, 95, 96, 97, 99, 100, 101, 107, 108, 113, 118, 119, 1, 9, 10, 11, 13, 14, 16, 17, 18, 20, 24, 25, 26, 28, 33, 35, 39, 48, 51, 54, 59, 60, 63, 65, 67, 72, 75, 76, 79, 80, 82, 83, 84, 92, 93, 95, 96, 97, 102, 104, 105, 107, 109, 111, 115, 116, 1, 4, 6, 9, 10, 14, 20, 23, 25, 31, 32, 35, 39, 40, 42, 43, 46, 48, 49, 51, 52, 56, 59, 61, 63, 66, 71, 72, 73, 78, 80, 81, 83, 85, 87, 88, 90, 94, 97, 98, 109, 110, 111, 112, 114, 115, 117, 119, 1, 4, 6, 7, 10, 11, 15, 18, 19, 21, 32, 39, 41, 42, 43, 44, 50, 51, 53, 55, 60, 62, 64, 67, 69, 70, 72, 73, 74, 76, 78, 79, 83, 85, 87, 88, 98, 100, 101, 103, 104, 106, 112, 113, 114, 117, 4, 6, 7, 12, 13, 14, 17, 18, 21, 26, 27, 28, 29, 30, 31, 32, 33, 35, 36, 37, 40, 43, 44, 45, 47, 48, 49, 52, 53, 54, 56, 57, 60, 64, 65, 68, 69, 71, 76, 77, 81, 85, 87, 88, 90, 91, 92, 94, 95, 98, 100, 102, 106, 110, 113, 116, 118, 4, 5, 6, 7, 8, 9, 10, 16, 20, 21, 24, 29, 35, 36, 38, 44, 51, 57, 58, 63, 64, 65, 75, 76, 77, 80, 87, 88, 89, 90, 93, 94, 96, 97, 102, 103, 106, 108, 110, 112, 113, 114, 115, 3, 4, 5, 9, 10, 12, 13, 19, 26, 27, 30, 31, 35, 36, 44, 45, 49, 51, 53, 54, 55, 56, 57, 58, 60, 61, 62, 63, 65, 68, 69, 71, 73, 77, 78, 80, 81, 82, 83, 89, 90, 92, 96, 97, 99, 100, 102, 103, 105, 111, 113, 117, 118, 119, 2, 4, 5, 6, 10, 14, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 30, 34, 35, 36, 38, 40, 44, 49, 54, 60, 66, 67, 68, 70, 71, 80, 82, 85, 89, 95, 96, 97, 101, 103, 107, 112, 115, 116, 118, 1, 3, 7, 9, 11, 16, 17, 21, 22, 27, 31, 33, 35, 36, 37, 42, 48, 50, 54, 58, 59, 61, 62, 63, 65, 66, 74, 75, 82, 83, 92, 96, 97, 99, 109, 112, 113, 115, 8, 10, 14, 17, 20, 21, 24, 26, 27, 28, 29, 31, 32, 33, 36, 42, 47, 49, 50, 54, 55, 57, 61, 71, 72, 74, 76, 78, 83, 85, 87, 88, 91, 93, 94, 96, 97, 98, 106, 108, 112, 114, 116, 119, 0, 4, 14, 15, 17, 18, 23, 29, 30, 31, 32, 37, 38, 39, 40, 42, 43, 44, 45, 47, 48, 49, 54, 56, 58, 59, 65, 66, 70, 72, 75, 78, 80, 84, 87, 88, 89, 90, 91, 94, 100, 108, 109, 111, 112, 115, 116, 118, 0, 1, 9, 10, 12, 13, 14, 15, 18, 25, 27, 28, 31, 35, 36, 40, 45, 46, 49, 50, 52, 53, 56, 58, 59, 60, 64, 69, 77, 78, 79, 80, 86, 87, 90, 91, 97, 101, 102, 103, 104, 106, 107, 112, 116, 118, 119, 0, 3, 6, 8, 9, 10, 15, 16, 20, 24, 27, 28, 37, 40, 41, 44, 45, 47, 52, 54, 56, 57, 59, 61, 62, 63, 65, 66, 68, 69, 70, 71, 72, 75, 76, 77, 78, 79, 84, 87, 89, 91, 96, 101, 103, 105, 109, 110, 112, 113, 114, 115, 116, 119, 2, 4, 6, 8, 13, 16, 19, 20, 27, 31, 33, 36, 37, 41, 42, 45, 49, 51, 53, 54, 56, 57, 59, 61, 65, 66, 67, 70, 71, 73, 75, 79, 82, 83, 86, 87, 88, 91, 93, 96, 97, 99, 105, 111, 115, 118, 119, 5, 9, 10, 14, 16, 19, 30, 31, 32, 33, 37, 38, 39, 40, 42, 45, 46, 47, 52, 55, 57, 61, 66, 67, 70, 72, 74, 76, 77, 80, 83, 84, 85, 86, 87, 90, 91, 92, 93, 95, 96, 99, 103, 107, 110, 112, 113, 114, 115, 117, 119, 1, 3, 8, 11, 13, 16, 17, 18, 19, 20, 21, 23, 26, 28, 29, 31, 32, 36, 37, 43, 51, 53, 55, 59, 63, 65, 67, 68, 70, 71, 73, 74, 75, 77, 80, 81, 83, 84, 85, 86, 87, 92, 93, 97, 99, 108, 110, 115, 117, 3, 4, 8, 9, 10, 11, 13, 17, 18, 19, 21, 25, 32, 33, 34, 35, 39, 40, 41, 42, 43, 44, 45, 51, 55, 58, 59, 61, 64, 65, 69, 70, 73, 78, 80, 82, 86, 88, 90, 91, 92, 101, 102, 104, 105, 108, 110, 113, 116, 117, 118, 0, 2, 5, 6, 13, 14, 16, 17, 20, 25, 26, 35, 37, 39, 41, 43, 49, 51, 52, 54, 57, 58, 59, 63, 64, 69, 71, 80, 81, 82, 84, 87, 90, 92, 96, 97, 99, 104, 106, 108, 112, 116, 117, 118, 2, 3, 4, 7, 12, 13, 18, 22, 23, 27, 29, 30, 33, 34, 44, 48, 50, 58, 67, 68, 69, 72, 74, 76, 77, 78, 82, 86, 93, 95, 96, 101, 103, 104, 105, 106, 107, 110, 114, 115, 117, 119, 2, 3, 4, 8, 9, 11, 14, 15, 19, 21, 22, 27, 28, 30, 32, 37, 43, 44, 45, 46, 49, 50, 53, 56, 58, 60, 62, 64, 66, 67, 72, 74, 76, 77, 79, 82, 84, 85, 86, 91, 93, 96, 97, 99, 101, 104, 107, 108, 109, 114, 117, 1, 3, 5, 7, 9, 18, 21, 23, 26, 29, 30, 33, 38, 39, 41, 44, 49, 51, 53, 55, 57, 60, 61, 66, 69, 82, 85, 87, 91, 94, 97, 99, 102, 103, 105, 106, 110, 111, 112, 113, 116, 117, 118, 119, 1, 3, 5, 12, 13, 14, 15, 18, 19, 27, 29, 32, 33, 34, 36, 37, 39, 41, 43, 47, 48, 54, 55, 56, 57, 59, 63, 69, 70, 72, 77, 78, 82, 84, 86, 89, 91, 94, 95, 97, 99, 100, 103, 107, 108, 110, 111, 114, 115, 116, 118, 2, 8, 9, 10, 11, 14, 15, 16, 19, 20, 21, 23, 24, 25, 27, 31, 33, 35, 40, 41, 42, 43, 47, 50, 52, 54, 55, 56, 57, 58, 60, 62, 65, 69, 74, 76, 79, 83, 85, 86, 87, 89, 90, 93, 98, 102, 107, 109, 111, 114, 115, 116, 10, 12, 14, 17, 20, 21, 23, 25, 32, 34, 35, 36, 40, 43, 44, 48, 49, 50, 52, 53, 55, 56, 62, 64, 65, 71, 74, 76, 80, 82, 84, 85, 90, 92, 95, 98, 101, 108, 110, 112, 113, 117, 118, 1, 2, 15, 17, 18, 19, 22, 24, 25, 26, 32, 33, 36, 37, 41, 49, 53, 56, 57, 58, 59, 60, 62, 63, 66, 69, 72, 75, 80, 81, 92, 95, 96, 97, 98, 109, 110, 112, 113, 116, 119, 0, 4, 5, 9, 10, 14, 17, 18, 19, 21, 23, 24, 26, 31, 32, 35, 36, 37, 38, 41, 42, 44, 55, 57, 58, 61, 63, 64, 67, 69, 71, 74, 75, 76, 79, 81, 82, 83, 84, 85, 86, 87, 88, 90, 92, 98, 100, 102, 110, 112, 113, 0, 2, 5, 7, 11, 13, 25, 27, 28, 29, 30, 34, 37, 38, 44, 48, 52, 53, 57, 59, 60, 61, 62, 63, 64, 66, 67, 68, 71, 76, 77, 78, 80, 87, 89, 95, 98, 101, 106, 108, 109, 110, 111, 112, 116, 119, 0, 1, 5, 6, 11, 12, 13, 14, 15, 16, 22, 25, 27, 37, 38, 40, 44, 52, 53, 55, 59, 62, 64, 67, 71, 72, 77, 79, 81, 84, 86, 89, 91, 94, 96, 99, 100, 102, 104, 105, 106, 108, 110, 112, 113, 115, 116, 0, 2, 4, 10, 11, 15, 20, 23, 27, 28, 32, 38, 40, 42, 43, 44, 46, 47, 49, 50, 51, 58, 60, 63, 64, 66, 67, 73, 76, 78, 80, 81, 86, 88, 89, 90, 91, 92, 98, 100, 105, 106, 110, 111, 114, 1, 4, 5, 8, 9, 16, 21, 22, 25, 28, 30, 34, 41, 45, 51, 55, 59, 61, 64, 69, 74, 78, 84, 86, 87, 91, 94, 98, 101, 109, 114, 115, 116, 118, 0, 2, 5, 7, 8, 9, 10, 11, 16, 17, 19, 20, 22, 23, 24, 26, 28, 29, 31, 32, 33, 35, 40, 41, 42, 46, 47, 48, 49, 52, 54, 55, 58, 60, 65, 68, 70, 71, 72, 74, 75, 83, 85, 86, 91, 96, 102, 104, 107, 110, 113, 114, 118, 1, 3, 4, 6, 8, 9, 11, 12, 17, 25, 26, 27, 30, 35, 37, 38, 40, 41, 42, 44, 50, 51, 56, 59, 61, 62, 64, 67, 72, 81, 82, 83, 84, 86, 88, 89, 90, 91, 92, 96, 98, 100, 102, 104, 105, 106, 108, 109, 111, 113, 115, 116, 118, 119, 0, 4, 6, 7, 8, 9, 12, 16, 20, 22, 27, 38, 39, 40, 41, 42, 44, 45, 49, 57, 61, 64, 65, 68, 69, 70, 71, 75, 79, 80, 81, 86, 89, 90, 93, 94, 95, 98, 99, 101, 103, 109, 111, 112, 114, 117, 0, 2, 5, 9, 14, 16, 18, 19, 20, 21, 23, 26, 27, 28, 34, 36, 37, 40, 41, 42, 44, 48, 49, 50, 51, 55, 62, 63, 67, 71, 72, 73, 74, 80, 82, 84, 90, 91, 96, 98, 105, 110, 111, 113, 115, 117, 119, 0, 1, 3, 6, 7, 10, 11, 17, 20, 21, 27, 28, 35, 38, 39, 40, 48, 56, 58, 59, 68, 69, 70, 71, 73, 77, 83, 84, 89, 92, 93, 100, 103, 105, 111, 112, 113, 114, 118, 0, 2, 14, 17, 19, 20, 23, 28, 29, 30, 31, 32, 34, 35, 36, 38, 40, 41, 44, 46, 47, 51, 53, 54, 59, 63, 67, 69, 70, 72, 73, 75, 76, 84, 86, 89, 91, 92, 94, 98, 99, 101, 103, 105, 110, 111, 114, 2, 6, 7, 8, 9, 10, 11, 12, 13, 18, 19, 24, 27, 31, 34, 35, 38, 43, 44, 45, 47, 49, 50, 57, 59, 64, 65, 68, 77, 78, 79, 84, 85, 86, 87, 88, 89, 90, 91, 93, 94, 95, 96, 98, 101, 103, 105, 106, 113, 114, 118, 119, 1, 2, 7, 8, 9, 10, 13, 15, 19, 20, 21, 24, 25, 29, 30, 34, 36, 39, 40, 44, 48, 52, 58, 59, 60, 61, 62, 64, 65, 70, 79, 81, 83, 84, 86, 87, 88, 90, 92, 97, 100, 103, 106, 108, 109, 110, 111, 115, 118, 119, 2, 5, 11, 13, 14, 15, 22, 25, 28, 29, 32, 33, 42, 43, 44, 45, 49, 51, 52, 53, 54, 56, 57, 62, 64, 65, 69, 70, 72, 73, 74, 77, 80, 82, 84, 85, 87, 91, 112, 115, 116, 117, 0, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 21, 23, 26, 28, 29, 30, 31, 33, 35, 36, 39, 43, 47, 51, 52, 53, 56, 57, 58, 59, 65, 66, 68, 72, 75, 76, 79, 81, 82, 85, 86, 87, 93, 94, 95, 96, 98, 100, 101, 102, 111, 114, 115, 117, 119, 0, 4, 7, 10, 19, 23, 25, 29, 34, 37, 44, 45, 47, 50, 53, 58, 60, 68, 69, 74, 76, 86, 92, 94, 95, 96, 102, 104, 106, 107, 112, 115, 118, 2, 3, 4, 7, 8, 9, 13, 14, 15, 17, 18, 19, 22, 25, 26, 29, 33, 35, 36, 37, 40, 41, 42, 43, 44, 51, 52, 56, 57, 59, 61, 64, 66, 72, 74, 77, 79, 81, 84, 85, 89, 91, 92, 96, 100, 101, 103, 105, 107, 111, 113, 119, 1, 5, 6, 7, 12, 13, 14, 15, 20, 22, 23, 24, 25, 28, 30, 32, 33, 34, 40, 41, 46, 47, 49, 51, 56, 60, 61, 62, 65, 67, 69, 70, 73, 78, 80, 83, 85, 88, 95, 99, 104, 106, 107, 109, 111, 113, 116, 117, 4, 5, 6, 11, 13, 15, 16, 17, 19, 21, 28, 31, 33, 34, 37, 39, 40, 44, 46, 47, 52, 54, 60, 65, 66, 67, 68, 69, 70, 71, 73, 79, 80, 81, 82, 83, 84, 85, 86, 87, 89, 92, 97, 98, 100, 102, 104, 106, 109, 111, 112, 113, 115, 0, 4, 10, 12, 13, 16, 20, 22, 25, 27, 30, 32, 40, 45, 46, 48, 53, 57, 59, 61, 62, 65, 68, 71, 74, 78, 81, 84, 91, 92, 93, 99, 101, 102, 104, 106, 108, 111, 113, 117, 0, 1, 2, 5, 6, 11, 18, 29, 30, 33, 34, 36, 37, 42, 44, 45, 46, 47, 52, 58, 60, 61, 63, 67, 68, 70, 73, 74, 75, 77, 80, 84, 85, 92, 93, 99, 100, 104, 105, 107, 108, 111, 112, 114, 115, 4, 8, 9, 11, 16, 17, 19, 20, 23, 24, 31, 32, 39, 41, 42, 44, 45, 47, 50, 52, 53, 55, 56, 60, 62, 63, 71, 73, 74, 75, 77, 78, 79, 81, 84, 86, 89, 94, 99, 101, 102, 105, 107, 110, 111, 113, 114, 115, 117, 118, 0, 1, 10, 11, 12, 13, 14, 23, 24, 27, 29, 30, 31, 33, 35, 37, 41, 43, 45, 50, 52, 55, 60, 64, 70, 76, 84, 85, 86, 88, 92, 94, 98, 103, 106, 107, 110, 111, 115, 117, 118, 119, 6, 10, 11, 13, 14, 16, 19, 23, 25, 27, 28, 32, 34, 35, 37, 38, 40, 42, 43, 44, 48, 50, 52, 53, 54, 55, 56, 58, 59, 61, 62, 64, 65, 69, 71, 72, 78, 79, 80, 81, 84, 88, 90, 91, 92, 95, 105, 106, 108, 110, 116, 117, 1, 2, 7, 8, 11, 19, 20, 21, 24, 25, 27, 28, 30, 31, 32, 33, 37, 44, 47, 50, 51, 53, 54, 56, 57, 63, 65, 71, 74, 77, 79, 83, 85, 92, 98, 101, 103, 106, 107, 109, 110, 111, 115, 116, 117, 119, 1, 2, 3, 8, 10, 11, 14, 19, 20, 25, 26, 27, 33, 35, 36, 40, 46, 49, 52, 53, 60, 62, 63, 64, 66, 70, 71, 72, 79, 81, 86, 87, 89, 90, 97, 101, 103, 105, 106, 112, 115, 117, 0, 3, 4, 6, 11, 15, 16, 21, 23, 24, 25, 27, 29, 32, 34, 38, 39, 40, 41, 48, 49, 52, 53, 57, 67, 73, 75, 82, 86, 87, 88, 90, 95, 96, 97, 98, 100, 101, 104, 111, 115, 119, 2, 6, 8, 9, 10, 14, 15, 16, 27, 28, 30, 31, 33, 36, 42, 46, 49, 50, 51, 54, 59, 64, 65, 66, 68, 69, 73, 74, 78, 79, 81, 90, 96, 97, 98, 99, 100, 102, 106, 107, 110, 111, 115, 116, 2, 3, 4, 7, 9, 11, 15, 17, 18, 20, 23, 24, 27, 28, 29, 30, 31, 32, 33, 35, 43, 47, 49, 55, 64, 65, 68, 70, 71, 73, 74, 82, 85, 92, 93, 94, 95, 98, 101, 104, 107, 108, 110, 112, 115, 116, 118, 119, 2, 3, 6, 10, 14, 15, 25, 27, 32, 36, 37, 39, 44, 53, 54, 56, 60, 62, 65, 67, 68, 71, 76, 78, 79, 80, 84, 85, 87, 88, 91, 92, 93, 95, 96, 98, 102, 105, 107, 109, 118, 1, 5, 7, 9, 11, 13, 14, 19, 20, 21, 22, 24, 26, 31, 35, 39, 40, 45, 48, 49, 52, 53, 54, 55, 56, 57, 58, 60, 62, 64, 65, 68, 69, 70, 73, 76, 78, 79, 80, 81, 86, 87, 89, 96, 104, 106, 108, 112, 113, 114, 115, 119, 0, 1, 2, 3, 5, 7, 13, 14, 15, 16, 17, 18, 19, 25, 27, 28, 31, 34, 36, 37, 38, 39, 40, 42, 44, 49, 52, 55, 56, 57, 59, 60, 62, 66, 68, 70, 71, 72, 73, 74, 75, 76, 82, 84, 89, 90, 92, 93, 98, 103, 104, 105, 106, 107, 108, 109, 114, 115, 116, 118, 2, 6, 7, 8, 10, 13, 14, 15, 17, 19, 20, 22, 23, 25, 27, 28, 29, 30, 31, 35, 37, 41, 50, 51, 57, 60, 65, 71, 72, 74, 77, 78, 80, 81, 89, 96, 97, 100, 101, 105, 106, 108, 2, 3, 5, 9, 15, 16, 18, 23, 28, 31, 32, 35, 37, 39, 40, 47, 49, 50, 51, 52, 56, 59, 60, 61, 65, 78, 80, 81, 82, 83, 84, 85, 90, 93, 95, 96, 99, 101, 103, 104, 105, 106, 108, 110, 112, 114, 116, 117, 0, 3, 17, 18, 21, 22, 34, 36, 38, 39, 44, 45, 46, 49, 57, 58, 64, 65, 71, 74, 76, 77, 79, 82, 84, 86, 89, 90, 95, 98, 100, 101, 105, 107, 111, 114, 1, 4, 5, 7, 8, 10, 13, 17, 22, 23, 24, 25, 28, 29, 30, 32, 38, 44, 46, 47, 48, 55, 56, 58, 59, 61, 62, 63, 64, 65, 66, 67, 74, 77, 79, 80, 81, 82, 83, 85, 89, 92, 95, 98, 101, 103, 106, 108, 111, 114, 117, 119, 0, 2, 6, 7, 8, 14, 16, 19, 20, 21, 22, 23, 31, 32, 36, 40, 43, 44, 46, 47, 48, 50, 51, 52, 53, 55, 57, 59, 62, 63, 64, 72, 78, 79, 82, 87, 91, 95, 96, 100, 101, 104, 109, 111, 113, 115, 118, 119, 2, 3, 5, 12, 15, 17, 18, 24, 28, 35, 37, 41, 47, 50, 51, 54, 59, 61, 62, 64, 65, 68, 69, 72, 73, 75, 79, 81, 82, 86, 89, 90, 91, 92, 95, 99, 100, 104, 105, 106, 107, 112, 113, 115, 117, 118, 1, 2, 8, 11, 16, 18, 20, 21, 24, 25, 26, 27, 30, 31, 32, 34, 42, 43, 44, 46, 47, 48, 50, 52, 55, 57, 58, 60, 61, 64, 66, 67, 68, 73, 75, 82, 83, 87, 91, 93, 94, 97, 100, 103, 105, 106, 109, 110, 114, 0, 4, 5, 8, 12, 14, 16, 19, 20, 22, 24, 25, 26, 29, 31, 32, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 48, 49, 50, 52, 55, 57, 58, 63, 66, 68, 70, 71, 72, 74, 76, 81, 82, 83, 84, 85, 86, 88, 89, 91, 92, 93, 96, 99, 103, 106, 116, 117, 119, 2, 6, 7, 8, 9, 11, 13, 20, 28, 31, 32, 35, 40, 46, 51, 52, 53, 56, 58, 59, 60, 61, 67, 70, 75, 78, 91, 92, 93, 95, 106, 107, 108, 109, 111, 114, 115, 117, 0, 1, 3, 4, 5, 6, 7, 9, 10, 11, 13, 15, 16, 19, 22, 24, 25, 30, 31, 32, 33, 35, 36, 42, 45, 46, 47, 49, 50, 58, 61, 63, 64, 67, 68, 71, 75, 76, 78, 80, 87, 92, 93, 94, 96, 97, 99, 101, 102, 104, 108, 112, 113, 118, 3, 5, 6, 8, 10, 13, 15, 17, 19, 20, 23, 25, 32, 35, 36, 40, 48, 49, 53, 62, 65, 70, 74, 75, 79, 81, 82, 87, 91, 92, 93, 95, 97, 98, 105, 109, 114, 116, 117, 0, 1, 3, 4, 5, 6, 11, 12, 17, 18, 21, 22, 24, 25, 26, 28, 29, 30, 31, 32, 36, 37, 39, 41, 43, 45, 47, 51, 53, 54, 55, 56, 57, 59, 63, 65, 66, 74, 75, 76, 77, 78, 81, 91, 93, 94, 95, 100, 102, 104, 105, 106, 107, 108, 112, 113, 115, 116, 118, 1, 4, 8, 13, 14, 15, 17, 20, 26, 31, 33, 36, 37, 45, 47, 50, 51, 52, 54, 55, 56, 57, 59, 61, 62, 63, 65, 66, 68, 75, 82, 85, 86, 89, 92, 102, 106, 109, 110, 112, 116, 117, 0, 3, 8, 10, 11, 13, 16, 17, 19, 20, 22, 31, 32, 36, 40, 41, 42, 45, 47, 49, 50, 54, 56, 58, 59, 62, 63, 65, 68, 70, 71, 75, 76, 83, 84, 85, 86, 87, 89, 94, 99, 100, 103, 104, 113, 115, 116, 119, 1, 3, 6, 18, 25, 26, 27, 30, 31, 38, 40, 41, 42, 44, 45, 49, 50, 52, 53, 55, 56, 57, 59, 63, 67, 70, 76, 77, 84, 85, 88, 92, 94, 103, 106, 109, 110, 114, 115, 117, 0, 1, 4, 6, 8, 12, 15, 16, 18, 24, 27, 29, 35, 36, 37, 41, 48, 49, 50, 52, 54, 55, 57, 58, 61, 62, 64, 65, 71, 73, 75, 79, 83, 84, 89, 92, 95, 96, 97, 99, 101, 103, 105, 106, 107, 108, 109, 110, 114, 115, 116, 117, 118, 0, 4, 5, 6, 7, 8, 13, 14, 19, 26, 27, 29, 32, 35, 37, 40, 45, 48, 51, 55, 61, 64, 66, 67, 68, 69, 73, 75, 79, 80, 83, 84, 85, 89, 91, 95, 97, 98, 102, 105, 106, 107, 110, 111, 116, 119, 2, 5, 6, 8, 9, 12, 15, 16, 17, 18, 22, 24, 27, 31, 32, 34, 36, 38, 39, 40, 41, 42, 44, 45, 50, 52, 54, 58, 60, 66, 70, 72, 74, 78, 79, 81, 82, 83, 84, 89, 91, 92, 94, 97, 99, 100, 101, 102, 103, 104, 109, 110, 112, 114, 118, 119, 0, 1, 3, 9, 12, 16, 19, 20, 24, 31, 35, 38, 46, 54, 60, 61, 65, 66, 68, 72, 74, 76, 83, 84, 85, 87, 89, 97, 100, 103, 107, 111, 118, 119, 1, 9, 10, 16, 19, 22, 23, 27, 29, 39, 40, 43, 45, 46, 48, 57, 58, 60, 61, 63, 64, 66, 69, 71, 73, 74, 79, 80, 82, 83, 87, 89, 90, 91, 93, 94, 97, 98, 99, 104, 105, 106, 109, 111, 112, 113, 118, 119, 1, 3, 4, 5, 7, 8, 12, 14, 16, 18, 19, 20, 22, 23, 25, 32, 33, 38, 42, 43, 48, 49, 52, 56, 57, 58, 62, 64, 66, 67, 73, 76, 79, 81, 84, 85, 90, 93, 96, 99, 100, 104, 105, 106, 109, 112, 113, 114, 115, 117, 1, 3, 7, 11, 12, 14, 15, 20, 21, 23, 25, 30, 33, 37, 39, 43, 44, 47, 49, 50, 53, 54, 55, 58, 59, 61, 62, 63, 65, 69, 73, 78, 80, 81, 83, 86, 87, 90, 91, 98, 100, 104, 108, 109, 110, 112, 115, 1, 5, 6, 9, 10, 12, 17, 18, 19, 20, 21, 22, 23, 26, 29, 30, 32, 34, 39, 41, 48, 49, 50, 51, 54, 61, 62, 63, 65, 73, 78, 82, 90, 91, 92, 94, 97, 100, 103, 104, 109, 112, 115, 117, 119, 0, 2, 3, 4, 11, 13, 15, 18, 19, 24, 25, 29, 30, 33, 36, 39, 41, 42, 45, 50, 51, 54, 56, 59, 62, 66, 67, 68, 69, 70, 72, 74, 75, 76, 77, 80, 83, 90, 93, 97, 100, 107, 108, 111, 112, 113, 116, 118, 3, 4, 6, 8, 10, 11, 12, 13, 30, 33, 39, 44, 47, 48, 49, 53, 55, 60, 63, 64, 65, 66, 69, 71, 72, 75, 76, 79, 82, 88, 89, 91, 94, 95, 99, 101, 106, 107, 109, 114, 115, 116, 117, 2, 3, 4, 8, 10, 13, 14, 17, 18, 19, 20, 26, 27, 28, 33, 43, 46, 47, 48, 49, 51, 53, 55, 58, 59, 63, 65, 66, 69, 73, 74, 76, 78, 80, 82, 85, 94, 96, 97, 100, 103, 107, 108, 110, 111, 112, 117, 118, 119, 0, 1, 2, 3, 5, 6, 7, 8, 9, 12, 13, 14, 15, 17, 19, 24, 25, 27, 30, 33, 34, 36, 38, 39, 43, 47, 52, 53, 56, 57, 59, 60, 63, 64, 65, 66, 69, 78, 81, 90, 92, 95, 96, 97, 98, 99, 100, 101, 102, 104, 106, 108, 112, 116, 117, 118, 0, 3, 4, 13, 18, 19, 22, 29, 35, 36, 39, 40, 42, 43, 47, 49, 50, 51, 54, 57, 58, 59, 67, 69, 73, 74, 75, 77, 78, 79, 81, 82, 88, 89, 95, 96, 97, 100, 101, 102, 103, 105, 107, 108, 113, 0, 1, 6, 7, 9, 11, 20, 21, 24, 26, 33, 34, 35, 36, 37, 39, 46, 49, 50, 55, 61, 64, 67, 68, 69, 71, 72, 73, 76, 77, 84, 87, 88, 92, 94, 96, 99, 105, 106, 107, 108, 111, 114, 118, 1, 6, 7, 9, 12, 14, 15, 22, 24, 28, 33, 36, 37, 39, 43, 44, 49, 51, 53, 59, 62, 64, 67, 68, 70, 71, 72, 78, 80, 81, 83, 86, 89, 90, 94, 95, 96, 105, 109, 110, 111, 113, 117, 119, 0, 2, 3, 6, 7, 8, 13, 14, 17, 20, 22, 26, 30, 32, 33, 35, 38, 44, 48, 49, 55, 56, 57, 58, 59, 61, 63, 67, 71, 73, 74, 78, 81, 83, 84, 85, 88, 90, 91, 92, 93, 94, 99, 103, 104, 105, 106, 108, 109, 113, 114, 115, 116, 117, 0, 1, 3, 5, 12, 17, 18, 19, 21, 22, 26, 27, 28, 30, 33, 34, 41, 43, 48, 49, 53, 54, 55, 56, 60, 61, 66, 68, 69, 73, 78, 79, 83, 89, 96, 97, 100, 101, 103, 106, 107, 108, 111, 112, 115, 119, 3, 13, 15, 16, 19, 21, 25, 27, 28, 29, 31, 36, 37, 39, 41, 42, 43, 51, 55, 60, 61, 62, 63, 67, 70, 73, 81, 83, 86, 88, 91, 93, 95, 101, 103, 105, 107, 110, 112, 113, 116, 1, 6, 7, 14, 17, 21, 23, 25, 26, 27, 29, 36, 39, 40, 42, 43, 44, 52, 53, 54, 55, 58, 63, 64, 65, 66, 76, 77, 78, 79, 81, 83, 89, 90, 91, 92, 94, 96, 99, 102, 103, 104, 105, 108, 110, 111, 112, 113, 118, 0, 1, 2, 3, 6, 7, 8, 9, 11, 13, 15, 18, 20, 25, 26, 29, 30, 31, 33, 34, 36, 48, 50, 51, 53, 61, 62, 64, 73, 75, 76, 77, 81, 82, 84, 87, 90, 91, 93, 94, 97, 99, 100, 101, 102, 105, 106, 116, 118, 0, 2, 3, 4, 6, 7, 13, 15, 16, 17, 29, 30, 31, 32, 35, 38, 42, 44, 45, 46, 47, 48, 49, 55, 56, 57, 65, 67, 70, 72, 73, 79, 85, 86, 88, 89, 93, 95, 96, 97, 98, 101, 102, 103, 104, 105, 106, 107, 108, 110, 111, 113, 117, 119, 6, 8, 9, 11, 12, 14, 17, 24, 26, 32, 42, 48, 52, 53, 59, 60, 63, 71, 73, 78, 80, 85, 88, 91, 92, 93, 96, 105, 106, 109, 110, 111, 112, 116, 117, 1, 2, 5, 8, 11, 16, 19, 20, 21, 22, 23, 29, 30, 33, 35, 36, 37, 38, 39, 41, 43, 44, 45, 46, 47, 48, 52, 53, 54, 55, 62, 64, 66, 68, 73, 76, 77, 82, 87, 90, 93, 94, 95, 96, 97, 99, 101, 102, 104, 105, 106, 107, 111, 113, 116, 3, 4, 5, 7, 8, 9, 12, 13, 15, 16, 17, 20, 21, 22, 23, 29, 31, 33, 36, 39, 44, 45, 50, 52, 53, 57, 59, 63, 64, 65, 66, 68, 70, 74, 78, 79, 82, 83, 87, 89, 92, 93, 94, 99, 100, 101, 102, 111, 112, 116, 2, 3, 11, 13, 14, 16, 21, 22, 27, 30, 34, 38, 39, 41, 44, 48, 49, 50, 51, 58, 60, 62, 63, 68, 69, 72, 75, 79, 81, 85, 87, 88, 89, 90, 95, 96, 100, 104, 110, 112, 113, 116, 8, 12, 13, 14, 16, 19, 21, 37, 38, 39, 43, 45, 46, 48, 50, 53, 54, 55, 56, 57, 60, 62, 71, 75, 77, 81, 84, 85, 86, 87, 90, 91, 92, 95, 97, 98, 99, 100, 101, 112, 115, 116, 2, 3, 5, 7, 8, 13, 14, 18, 19, 23, 27, 28, 31, 35, 36, 37, 39, 40, 44, 45, 46, 48, 52, 54, 58, 60, 62, 64, 65, 66, 69, 70, 74, 75, 78, 79, 82, 83, 85, 88, 89, 91, 92, 94, 104, 106, 107, 108, 109, 110, 111, 112, 113, 2, 3, 4, 5, 6, 8, 9, 11, 18, 19, 21, 24, 25, 30, 31, 32, 34, 36, 43, 48, 50, 52, 53, 54, 55, 57, 60, 61, 63, 64, 67, 70, 71, 82, 84, 85, 87, 91, 95, 98, 99, 100, 101, 103, 106, 107, 108, 109, 111, 112, 116, 118, 119, 3, 5, 9, 16, 18, 22, 24, 25, 26, 29, 30, 36, 45, 48, 51, 52, 55, 59, 60, 61, 62, 65, 66, 67, 68, 69, 70, 73, 74, 75, 76, 77, 78, 82, 84, 85, 87, 93, 97, 98, 99, 101, 104, 106, 107, 108, 114, 117, 118, 1, 3, 6, 7, 8, 10, 11, 12, 15, 18, 20, 22, 24, 26, 27, 28, 29, 33, 38, 41, 43, 44, 45, 49, 50, 52, 55, 64, 67, 68, 71, 73, 77, 78, 80, 81, 83, 85, 86, 96, 102, 104, 106, 108, 109, 110, 112, 113, 117, 2, 3, 5, 13, 18, 23, 24, 27, 30, 31, 33, 38, 39, 41, 42, 43, 46, 49, 51, 53, 54, 57, 61, 64, 65, 67, 69, 72, 74, 77, 78, 81, 82, 83, 84, 86, 87, 93, 94, 96, 98, 99, 100, 101, 102, 107, 111, 114, 115, 117, 0, 1, 3, 8, 12, 13, 19, 23, 25, 27, 28, 29, 30, 32, 37, 38, 41, 42, 43, 45, 47, 48, 49, 51, 55, 56, 57, 58, 63, 64, 66, 72, 73, 74, 76, 79, 80, 81, 82, 85, 86, 87, 88, 91, 92, 96, 97, 99, 100, 101, 104, 105, 107, 112, 114, 1, 7, 13, 14, 17, 20, 25, 28, 30, 32, 33, 34, 35, 39, 49, 51, 55, 60, 65, 66, 67, 74, 78, 82, 85, 87, 88, 90, 91, 93, 94, 96, 97, 98, 99, 105, 106, 109, 110, 111, 118, 1, 2, 12, 15, 17, 18, 19, 27, 28, 33, 36, 48, 49, 50, 51, 53, 55, 59, 64, 66, 69, 71, 73, 74, 76, 77, 82, 83, 85, 86, 87, 88, 90, 105, 107, 109, 111, 113, 3, 4, 15, 17, 20, 22, 23, 25, 26, 31, 32, 33, 35, 36, 37, 38, 39, 41, 44, 45, 47, 48, 50, 51, 55, 59, 61, 63, 67, 69, 78, 80, 82, 85, 89, 92, 94, 96, 97, 99, 101, 107, 109, 111, 115, 119, 4, 7, 16, 21, 22, 27, 28, 34, 38, 41, 42, 46, 47, 48, 49, 52, 53, 54, 58, 60, 63, 67, 73, 74, 76, 78, 80, 81, 83, 85, 91, 93, 95, 96, 98, 99, 100, 105, 109, 116, 0, 3, 6, 7, 8, 12, 13, 17, 19, 22, 26, 28, 30, 32, 33, 38, 39, 42, 47, 48, 56, 60, 62, 63, 64, 65, 66, 68, 70, 74, 76, 80, 85, 86, 88, 90, 93, 95, 101, 103, 105, 106, 108, 109, 110, 111, 113, 115, 118, 2, 3, 6, 7, 8, 9, 10, 11, 14, 21, 23, 24, 28, 34, 36, 41, 42, 43, 44, 46, 47, 48, 49, 56, 57, 58, 61, 63, 66, 67, 72, 73, 79, 82, 83, 86, 91, 94, 96, 100, 105, 106, 107, 113, 116, 1, 2, 3, 4, 6, 9, 12, 16, 18, 21, 22, 25, 31, 33, 38, 39, 40, 41, 42, 43, 45, 46, 51, 59, 60, 66, 68, 71, 81, 84, 85, 88, 91, 94, 96, 97, 98, 99, 102, 103, 104, 105, 106, 109, 111, 113, 114, 116, 117, 119, 0, 6, 7, 8, 10, 12, 15, 21, 24, 26, 37, 38, 39, 40, 42, 49, 51, 56, 61, 66, 67, 69, 70, 76, 78, 79, 81, 82, 84, 87, 88, 89, 95, 96, 97, 100, 101, 102, 106, 109, 116, 118, 119, 0, 5, 6, 7, 8, 12, 16, 24, 29, 31, 32, 33, 36, 40, 41, 46, 48, 49, 50, 53, 57, 61, 64, 65, 67, 68, 75, 77, 82, 84, 87, 90, 91, 96, 98, 100, 101, 103, 106, 107, 111, 113, 118, 119, 1, 5, 7, 8, 12, 13, 15, 20, 22, 24, 25, 26, 27, 31, 38, 39, 42, 46, 48, 52, 56, 60, 64, 65, 67, 70, 72, 77, 87, 91, 94, 95, 99, 100, 104, 105, 106, 111, 114, 116, 117, 119, 4, 5, 7, 14, 15, 19, 20, 21, 22, 26, 29, 35, 36, 37, 39, 40, 44, 46, 48, 50, 52, 53, 55, 61, 62, 63, 64, 67, 70, 71, 74, 79, 80, 83, 85, 86, 87, 89, 91, 98, 105, 106, 107, 109, 112, 113, 114, 115, 116, 118, 1, 4, 9, 12, 15, 16, 18, 19, 21, 22, 25, 29, 34, 42, 43, 46, 47, 48, 55, 57, 61, 67, 69, 72, 79, 82, 83, 84, 85, 86, 88, 90, 95, 97, 99, 100, 102, 109, 111, 118, 0, 1, 3, 4, 5, 7, 8, 10, 11, 13, 14, 15, 19, 27, 28, 30, 31, 32, 34, 43, 44, 48, 49, 51, 52, 54, 56, 64, 67, 68, 69, 73, 76, 77, 78, 83, 87, 90, 91, 93, 95, 97, 99, 109, 111, 113, 115, 118, 2, 4, 5, 10, 13, 14, 17, 22, 25, 26, 27, 28, 30, 33, 38, 43, 45, 50, 51, 52, 55, 56, 61, 64, 68, 72, 73, 77, 80, 81, 85, 88, 90, 92, 95, 99, 103, 104, 105, 109, 117, 119, 0, 1, 5, 6, 10, 12, 15, 16, 17, 19, 21, 26, 28, 29, 30, 32, 38, 39, 49, 53, 56, 59, 63, 64, 66, 67, 68, 69, 72, 75, 82, 83, 86, 89, 91, 92, 98, 102, 107, 108, 114, 116, 117, 119, 0, 3, 6, 12, 14, 15, 16, 19, 20, 22, 27, 30, 31, 32, 35, 37, 39, 40, 44, 45, 47, 49, 51, 58, 60, 61, 62, 65, 68, 71, 74, 76, 77, 79, 80, 81, 88, 95, 96, 100, 106, 107, 109, 110, 111, 112, 113, 114, 115, 1, 4, 6, 7, 8, 11, 12, 14, 15, 18, 20, 21, 23, 24, 28, 29, 31, 35, 36, 38, 39, 41, 44, 46, 49, 51, 52, 56, 64, 75, 77, 82, 85, 86, 93, 96, 97, 100, 103, 105, 107, 109, 110, 112, 114, 115, 116, 117, 119, 2, 4, 5, 9, 15, 18, 20, 23, 24, 25, 30, 31, 32, 37, 38, 39, 42, 44, 47, 54, 58, 60, 62, 63, 65, 66, 70, 71, 73, 82, 85, 88, 89, 91, 93, 95, 97, 99, 106, 112, 117, 1, 2, 7, 10, 11, 12, 13, 17, 19, 21, 25, 27, 28, 30, 33, 41, 42, 44, 45, 46, 47, 51, 52, 57, 58, 59, 62, 64, 68, 69, 71, 76, 81, 85, 93, 96, 100, 101, 103, 105, 109, 111, 113, 115, 116, 1, 4, 6, 7, 16, 18, 22, 24, 26, 27, 30, 31, 33, 39, 40, 41, 42, 43, 44, 48, 55, 56, 58, 59, 62, 67, 70, 74, 76, 77, 79, 80, 85, 87, 88, 89, 91, 93, 97, 98, 99, 102, 105, 106, 107, 109, 110, 113, 116, 118, 119, 0, 3, 4, 6, 7, 8, 10, 12, 14, 15, 18, 19, 23, 27, 29, 31, 32, 34, 40, 47, 49, 50, 54, 55, 56, 60, 61, 62, 63, 66, 68, 69, 71, 72, 73, 75, 78, 90, 91, 97, 107, 109, 114, 115, 3, 4, 6, 8, 12, 13, 20, 24, 28, 30, 35, 40, 44, 47, 48, 52, 57, 58, 60, 62, 63, 64, 66, 69, 71, 73, 74, 75, 76, 81, 83, 85, 87, 89, 95, 106, 107, 108, 109, 111, 113, 114, 115, 1, 2, 3, 11, 12, 13, 14, 15, 18, 21, 27, 29, 31, 34, 36, 39, 42, 49, 50, 51, 54, 57, 58, 60, 62, 63, 64, 65, 69, 71, 72, 73, 77, 80, 82, 84, 85, 88, 90, 91, 95, 98, 99, 102, 104, 111, 117, 0, 2, 3, 4, 7, 10, 16, 20, 22, 32, 34, 35, 36, 40, 43, 44, 46, 48, 49, 55, 56, 58, 62, 63, 64, 67, 68, 69, 73, 74, 77, 80, 81, 82, 86, 88, 90, 92, 93, 96, 101, 102, 105, 107, 113, 114, 118, 0, 1, 6, 9, 10, 12, 16, 17, 18, 20, 21, 23, 24, 25, 26, 29, 33, 37, 39, 43, 50, 51, 53, 56, 58, 61, 62, 63, 65, 66, 72, 74, 75, 77, 79, 80, 81, 82, 83, 85, 86, 88, 90, 92, 93, 96, 98, 100, 101, 105, 109, 111, 112, 114, 1, 6, 9, 15, 17, 20, 21, 23, 24, 25, 26, 28, 30, 31, 32, 35, 37, 41, 50, 51, 52, 58, 63, 64, 65, 67, 68, 71, 74, 75, 79, 84, 85, 86, 89, 94, 95, 96, 97, 98, 100, 103, 106, 107, 112, 115, 119, 4, 5, 7, 8, 12, 17, 19, 21, 26, 28, 29, 30, 33, 35, 36, 37, 38, 39, 41, 42, 49, 51, 61, 65, 69, 70, 78, 83, 86, 87, 92, 93, 95, 97, 100, 101, 102, 104, 105, 106, 108, 111, 0, 1, 3, 6, 7, 9, 16, 17, 19, 20, 21, 23, 24, 26, 35, 42, 44, 45, 46, 47, 49, 50, 54, 55, 57, 58, 60, 62, 66, 70, 71, 79, 80, 84, 85, 91, 92, 95, 97, 100, 102, 103, 110, 111, 113, 118, 2, 3, 4, 6, 8, 9, 10, 12, 22, 24, 26, 27, 28, 32, 37, 39, 41, 42, 46, 51, 53, 56, 65, 66, 67, 69, 75, 79, 80, 90, 92, 94, 96, 101, 102, 106, 109, 110, 111, 116, 117, 1, 4, 7, 9, 11, 12, 13, 19, 22, 25, 26, 30, 31, 32, 33, 34, 35, 36, 38, 41, 46, 47, 50, 51, 54, 59, 60, 61, 65, 66, 67, 68, 70, 72, 74, 78, 79, 80, 81, 82, 83, 88, 89, 93, 94, 99, 104, 105, 111, 114, 119, 0, 1, 4, 5, 6, 7, 10, 11, 12, 15, 16, 17, 18, 19, 20, 23, 24, 28, 29, 36, 38, 39, 47, 48, 51, 53, 57, 61, 62, 63, 64, 65, 69, 71, 73, 76, 83, 84, 89, 91, 92, 95, 96, 98, 100, 110, 113, 114, 115, 116, 118, 0, 2, 4, 5, 8, 9, 10, 12, 13, 14, 15, 16, 18, 19, 24, 28, 29, 33, 37, 38, 46, 50, 53, 54, 55, 56, 60, 66, 68, 71, 72, 73, 77, 79, 80, 82, 84, 85, 86, 88, 89, 93, 99, 102, 104, 105, 110, 112, 113, 114, 116, 117, 118, 2, 4, 10, 11, 13, 20, 27, 29, 30, 31, 34, 35, 39, 41, 42, 46, 48, 51, 53, 54, 55, 64, 65, 73, 74, 76, 78, 79, 81, 90, 94, 95, 101, 103, 106, 112, 116, 119, 2, 7, 8, 11, 13, 19, 28, 30, 33, 45, 46, 49, 51, 53, 59, 61, 62, 63, 64, 67, 68, 70, 81, 82, 83, 85, 88, 89, 91, 92, 95, 99, 106, 112, 119, 3, 5, 7, 9, 10, 13, 17, 18, 21, 24, 29, 30, 31, 32, 35, 36, 41, 42, 46, 50, 53, 54, 57, 63, 69, 70, 73, 78, 80, 87, 89, 90, 93, 95, 101, 104, 105, 107, 111, 113, 119, 2, 3, 4, 6, 7, 10, 13, 14, 16, 17, 21, 28, 29, 30, 34, 38, 39, 40, 41, 44, 46, 48, 49, 57, 60, 62, 65, 68, 70, 71, 72, 75, 77, 79, 84, 85, 89, 94, 95, 98, 99, 100, 101, 102, 104, 107, 109, 110, 111, 115, 116, 118, 119, 0, 1, 3, 4, 5, 6, 8, 10, 15, 16, 17, 18, 19, 21, 22, 23, 27, 29, 30, 36, 37, 43, 46, 47, 50, 52, 53, 55, 64, 67, 71, 72, 73, 76, 77, 80, 83, 86, 91, 92, 93, 94, 95, 96, 97, 101, 103, 105, 107, 109, 110, 112, 115, 117, 119, 0, 1, 3, 4, 5, 7, 10, 12, 14, 16, 17, 19, 20, 23, 24, 32, 36, 42, 44, 45, 48, 49, 50, 51, 52, 54, 55, 57, 58, 62, 63, 65, 66, 71, 77, 78, 82, 86, 90, 91, 92, 93, 96, 104, 107, 110, 115, 117, 118, 0, 1, 3, 4, 5, 6, 10, 13, 15, 17, 19, 23, 26, 31, 35, 39, 40, 43, 46, 48, 50, 52, 53, 56, 58, 60, 63, 64, 65, 69, 71, 73, 76, 77, 79, 81, 82, 86, 87, 88, 94, 98, 99, 101, 102, 103, 104, 107, 109, 112, 113, 115, 1, 4, 5, 7, 8, 9, 10, 11, 13, 14, 15, 16, 21, 23, 24, 28, 32, 35, 37, 38, 43, 44, 46, 48, 52, 53, 60, 63, 68, 71, 77, 81, 82, 83, 86, 87, 93, 95, 98, 99, 106, 107, 109, 110, 111, 112, 113, 116, 117, 118, 8, 10, 17, 18, 19, 21, 23, 24, 25, 26, 27, 33, 34, 35, 38, 46, 47, 50, 52, 53, 56, 60, 64, 65, 66, 67, 71, 78, 80, 81, 84, 85, 87, 89, 90, 91, 96, 97, 98, 99, 101, 104, 105, 107, 108, 109, 114, 115, 117, 2, 3, 10, 15, 17, 18, 19, 21, 22, 23, 24, 26, 28, 30, 32, 33, 35, 36, 39, 47, 48, 49, 51, 55, 56, 57, 58, 61, 62, 63, 64, 66, 67, 68, 73, 77, 78, 79, 83, 84, 85, 86, 87, 89, 92, 93, 94, 98, 100, 102, 105, 107, 109, 111, 114, 1, 2, 4, 7, 9, 11, 17, 25, 27, 28, 29, 30, 31, 36, 37, 39, 41, 43, 46, 48, 49, 50, 52, 53, 54, 56, 61, 64, 65, 68, 69, 74, 78, 80, 81, 91, 93, 96, 98, 99, 100, 102, 104, 108, 111, 113, 118, 0, 1, 3, 5, 9, 11, 14, 19, 20, 23, 24, 26, 27, 28, 29, 31, 33, 35, 36, 37, 38, 40, 41, 42, 45, 47, 50, 51, 55, 56, 60, 61, 64, 65, 67, 72, 75, 77, 79, 81, 84, 86, 88, 98, 100, 101, 103, 104, 107, 111, 112, 113, 114, 115, 0, 2, 3, 6, 9, 10, 14, 18, 25, 27, 29, 30, 33, 34, 35, 37, 38, 41, 42, 43, 45, 46, 48, 51, 56, 59, 60, 64, 65, 67, 75, 76, 77, 79, 80, 82, 85, 88, 89, 91, 92, 93, 96, 97, 98, 99, 100, 101, 103, 106, 115, 116, 1, 5, 9, 11, 12, 13, 16, 19, 22, 23, 25, 26, 28, 29, 32, 34, 35, 36, 40, 43, 49, 51, 60, 64, 66, 68, 70, 72, 77, 78, 79, 81, 89, 92, 93, 94, 95, 97, 98, 101, 102, 104, 107, 110, 114, 117, 119, 3, 6, 7, 15, 21, 22, 24, 30, 31, 37, 38, 40, 44, 45, 46, 48, 55, 56, 57, 58, 59, 60, 61, 62, 63, 66, 67, 71, 72, 73, 77, 78, 79, 89, 90, 94, 99, 100, 102, 103, 104, 112, 114, 115, 118, 1, 3, 7, 11, 12, 13, 15, 18, 19, 25, 26, 29, 30, 31, 34, 36, 41, 50, 51, 52, 55, 57, 59, 62, 64, 65, 67, 68, 75, 76, 79, 84, 85, 90, 91, 95, 98, 100, 101, 103, 106, 107, 108, 109, 112, 113, 114, 119, 1, 2, 4, 5, 6, 7, 8, 10, 11, 12, 16, 19, 20, 21, 24, 25, 29, 34, 36, 38, 39, 40, 42, 43, 46, 48, 49, 50, 51, 53, 55, 59, 60, 62, 63, 64, 65, 69, 78, 79, 81, 84, 85, 86, 91, 92, 95, 96, 99, 103, 106, 111, 112, 116, 119, 5, 12, 13, 14, 15, 18, 24, 26, 29, 32, 33, 36, 39, 47, 48, 50, 57, 63, 67, 72, 73, 74, 79, 81, 82, 83, 85, 90, 91, 92, 95, 99, 100, 102, 103, 104, 107, 108, 115, 1, 2, 3, 4, 5, 6, 8, 18, 19, 22, 26, 27, 28, 34, 37, 39, 43, 44, 45, 47, 48, 49, 61, 67, 72, 75, 76, 78, 80, 81, 84, 86, 88, 95, 96, 101, 106, 108, 110, 112, 113, 114, 117, 1, 2, 3, 4, 7, 8, 9, 12, 13, 15, 19, 22, 24, 25, 31, 34, 36, 38, 39, 44, 51, 55, 57, 62, 63, 64, 66, 67, 74, 76, 79, 80, 81, 84, 87, 88, 96, 98, 100, 103, 108, 109, 113, 114, 115, 117, 119, 0, 1, 4, 5, 6, 9, 10, 11, 16, 17, 21, 23, 24, 25, 27, 32, 34, 35, 36, 37, 48, 53, 54, 55, 56, 57, 63, 65, 66, 69, 70, 72, 76, 78, 80, 82, 84, 85, 86, 87, 88, 89, 92, 93, 94, 95, 96, 99, 101, 103, 106, 108, 112, 115, 119, 3, 6, 12, 13, 15, 16, 27, 28, 35, 37, 39, 40, 44, 49, 52, 53, 60, 62, 64, 67, 68, 73, 76, 81, 82, 85, 86, 89, 90, 94, 97, 98, 99, 103, 104, 105, 106, 109, 110, 112, 113, 0, 1, 3, 4, 7, 13, 14, 19, 24, 31, 32, 40, 42, 43, 45, 46, 48, 50, 51, 52, 58, 60, 63, 64, 65, 68, 71, 75, 76, 77, 78, 82, 92, 95, 107, 110, 113, 114, 118, 3, 5, 9, 10, 14, 15, 17, 21, 23, 26, 29, 30, 34, 35, 36, 38, 40, 43, 48, 56, 57, 58, 59, 62, 70, 72, 73, 75, 76, 78, 80, 81, 82, 83, 84, 86, 87, 92, 97, 99, 100, 103, 110, 111, 112, 115, 118, 1, 2, 4, 7, 8, 11, 14, 15, 16, 19, 21, 23, 24, 27, 29, 31, 34, 41, 42, 44, 49, 51, 53, 54, 58, 59, 60, 63, 64, 65, 66, 68, 69, 71, 75, 76, 77, 79, 81, 83, 85, 90, 93, 102, 104, 108, 110, 112, 113, 116, 0, 3, 8, 12, 19, 23, 27, 28, 29, 30, 31, 32, 35, 37, 45, 47, 49, 50, 52, 53, 54, 56, 58, 59, 60, 61, 62, 67, 68, 69, 71, 73, 76, 77, 78, 84, 91, 92, 93, 95, 98, 102, 104, 105, 106, 108, 116, 119, 1, 3, 5, 8, 9, 13, 15, 22, 23, 24, 26, 27, 31, 32, 35, 45, 50, 53, 54, 58, 59, 60, 63, 64, 67, 68, 70, 73, 74, 75, 76, 77, 81, 84, 85, 89, 90, 93, 94, 96, 99, 106, 109, 114, 115, 116, 117, 2, 4, 7, 8, 12, 15, 18, 27, 29, 32, 34, 35, 36, 37, 38, 41, 46, 47, 49, 51, 61, 69, 75, 77, 79, 80, 81, 82, 84, 85, 87, 88, 89, 97, 99, 101, 103, 109, 110, 114, 115, 116, 118, 119, 1, 2, 3, 4, 5, 6, 12, 15, 17, 18, 20, 22, 27, 30, 34, 39, 43, 44, 46, 48, 52, 53, 57, 58, 61, 62, 64, 65, 67, 69, 72, 74, 79, 80, 81, 82, 83, 85, 93, 100, 101, 107, 110, 117, 119, 12, 17, 19, 22, 23, 24, 27, 30, 31, 35, 37, 39, 40, 43, 45, 46, 51, 52, 54, 55, 56, 58, 60, 61, 62, 68, 72, 76, 77, 78, 79, 81, 82, 84, 93, 94, 96, 97, 98, 101, 102, 103, 104, 107, 111, 112, 113, 115, 119, 7, 9, 11, 15, 17, 18, 22, 23, 28, 29, 31, 35, 39, 40, 41, 43, 44, 49, 51, 55, 59, 60, 65, 67, 70, 71, 74, 75, 77, 79, 80, 81, 82, 83, 85, 88, 89, 91, 95, 96, 97, 98, 99, 100, 102, 103, 104, 107, 110, 111, 112, 113, 115, 116, 118, 2, 3, 6, 9, 13, 14, 18, 19, 20, 25, 27, 28, 29, 31, 36, 37, 38, 40, 45, 46, 48, 52, 54, 55, 58, 59, 63, 66, 72, 74, 79, 80, 83, 84, 85, 87, 89, 90, 92, 93, 94, 95, 98, 99, 102, 104, 105, 107, 108, 109, 110, 112, 117, 0, 2, 5, 6, 9, 10, 13, 15, 16, 17, 18, 22, 23, 25, 26, 28, 31, 33, 36, 40, 42, 44, 45, 46, 47, 51, 52, 59, 60, 61, 64, 65, 67, 69, 71, 72, 73, 75, 82, 85, 87, 95, 96, 98, 101, 110, 113, 115, 118, 1, 3, 9, 12, 15, 18, 19, 21, 24, 26, 32, 36, 37, 38, 40, 43, 45, 52, 54, 55, 57, 58, 60, 62, 68, 72, 73, 74, 80, 85, 89, 91, 93, 94, 95, 96, 98, 100, 103, 104, 105, 106, 107, 110, 111, 112, 118, 4, 9, 10, 11, 12, 13, 19, 20, 24, 25, 26, 30, 33, 34, 35, 37, 44, 52, 53, 55, 56, 61, 62, 63, 67, 68, 70, 71, 75, 78, 81, 82, 85, 95, 97, 99, 101, 103, 104, 105, 106, 110, 114, 117, 3, 4, 9, 14, 16, 18, 21, 22, 23, 27, 28, 35, 37, 38, 39, 47, 50, 55, 60, 62, 69, 72, 73, 75, 78, 87, 88, 94, 95, 100, 101, 104, 106, 108, 114, 0, 2, 3, 7, 10, 12, 13, 17, 20, 23, 24, 27, 29, 31, 32, 39, 40, 45, 48, 51, 54, 55, 62, 63, 66, 70, 71, 75, 86, 87, 88, 92, 94, 95, 100, 104, 106, 108, 111, 112, 117, 119, 2, 5, 6, 7, 8, 9, 10, 11, 13, 16, 19, 20, 22, 23, 25, 29, 30, 34, 43, 50, 52, 53, 55, 56, 57, 58, 59, 60, 62, 66, 71, 75, 76, 80, 84, 89, 95, 101, 105, 107, 108, 111, 114, 116, 117, 119, 1, 3, 5, 7, 9, 14, 15, 18, 19, 23, 29, 35, 38, 40, 41, 42, 45, 48, 51, 54, 55, 56, 58, 60, 68, 77, 84, 87, 89, 91, 95, 96, 98, 105, 110, 115, 116, 117, 118, 0, 1, 5, 6, 7, 11, 13, 14, 15, 16, 18, 20, 21, 23, 25, 26, 27, 30, 37, 38, 40, 42, 46, 48, 49, 51, 57, 62, 63, 68, 72, 73, 79, 80, 82, 83, 86, 87, 89, 91, 94, 95, 96, 97, 99, 101, 102, 104, 111, 113, 116, 117, 119, 3, 4, 8, 9, 12, 13, 24, 27, 29, 32, 36, 38, 40, 54, 57, 58, 59, 61, 66, 70, 77, 80, 81, 83, 84, 87, 93, 94, 97, 99, 101, 103, 116, 2, 3, 5, 10, 16, 18, 21, 24, 25, 31, 32, 34, 35, 41, 45, 46, 51, 52, 56, 57, 58, 61, 62, 63, 66, 68, 70, 74, 76, 81, 82, 86, 88, 91, 94, 95, 96, 101, 105, 107, 115, 119, 3, 5, 10, 13, 15, 20, 21, 22, 23, 24, 26, 29, 32, 34, 35, 36, 41, 42, 44, 50, 56, 57, 59, 62, 64, 66, 67, 69, 71, 73, 75, 77, 78, 79, 80, 82, 85, 88, 89, 92, 98, 99, 100, 103, 107, 108, 111, 114, 118, 119, 0, 1, 4, 7, 9, 10, 14, 16, 22, 24, 26, 30, 31, 32, 33, 34, 39, 41, 42, 43, 44, 45, 47, 51, 53, 58, 59, 63, 66, 68, 69, 70, 71, 74, 75, 80, 84, 85, 86, 89, 90, 92, 96, 97, 99, 100, 103, 104, 107, 108, 109, 0, 2, 3, 5, 6, 8, 10, 15, 18, 21, 23, 24, 26, 27, 29, 32, 33, 37, 39, 51, 58, 60, 61, 64, 71, 72, 73, 76, 77, 79, 80, 81, 86, 90, 95, 97, 99, 100, 103, 105, 111, 116, 117, 119, 0, 4, 5, 8, 10, 11, 13, 18, 22, 24, 25, 26, 30, 36, 39, 44, 45, 51, 53, 54, 55, 58, 62, 63, 64, 75, 76, 77, 78, 83, 84, 86, 89, 90, 92, 94, 102, 105, 1, 2, 3, 6, 8, 10, 11, 12, 15, 18, 20, 25, 26, 27, 29, 32, 34, 35, 37, 39, 44, 50, 52, 54, 56, 63, 66, 77, 80, 81, 85, 87, 90, 91, 93, 94, 96, 99, 100, 106, 107, 108, 109, 111, 112, 113, 118, 4, 6, 17, 18, 20, 22, 23, 25, 26, 28, 30, 33, 37, 39, 41, 42, 44, 45, 51, 55, 58, 61, 62, 63, 67, 68, 69, 70, 73, 74, 77, 79, 81, 82, 84, 87, 88, 90, 92, 94, 96, 101, 104, 106, 110, 113, 119, 1, 2, 7, 8, 17, 19, 21, 23, 25, 26, 31, 32, 37, 39, 43, 44, 46, 48, 50, 52, 55, 56, 57, 60, 61, 68, 73, 75, 76, 77, 78, 79, 81, 83, 85, 86, 87, 88, 89, 90, 91, 92, 94, 95, 96, 97, 98, 100, 104, 105, 106, 107, 111, 112, 114, 119, 3, 4, 7, 9, 13, 14, 17, 19, 20, 21, 24, 26, 27, 28, 31, 33, 38, 40, 47, 51, 54, 55, 64, 65, 66, 67, 70, 71, 73, 77, 87, 91, 95, 100, 102, 104, 105, 110, 111, 113, 115, 116, 117, 0, 6, 7, 8, 11, 13, 16, 17, 18, 20, 21, 25, 26, 27, 32, 33, 34, 36, 37, 38, 41, 45, 47, 54, 57, 61, 62, 64, 67, 68, 70, 71, 73, 79, 81, 82, 84, 88, 91, 92, 94, 96, 104, 105, 108, 109, 118, 1, 5, 9, 12, 19, 20, 22, 25, 29, 31, 32, 33, 34, 36, 37, 39, 41, 42, 43, 44, 47, 51, 52, 53, 58, 60, 64, 65, 67, 69, 73, 75, 78, 80, 81, 83, 86, 87, 91, 93, 103, 106, 107, 111, 113, 114, 116, 119, 0, 1, 3, 4, 8, 14, 15, 17, 18, 19, 22, 24, 25, 30, 31, 32, 36, 37, 39, 40, 42, 46, 52, 53, 55, 56, 58, 61, 64, 69, 70, 73, 78, 80, 82, 83, 85, 86, 90, 93, 96, 98, 99, 107, 111, 113, 114, 115, 117, 5, 6, 7, 8, 9, 10, 11, 13, 16, 28, 29, 30, 34, 37, 38, 39, 41, 42, 43, 45, 46, 49, 51, 53, 54, 56, 59, 63, 69, 75, 76, 85, 90, 91, 96, 99, 102, 119, 0, 1, 10, 12, 14, 17, 18, 19, 21, 25, 26, 28, 32, 33, 34, 37, 41, 42, 43, 45, 46, 49, 53, 54, 55, 57, 60, 61, 64, 65, 66, 69, 73, 74, 78, 82, 84, 86, 90, 101, 103, 104, 106, 113, 1, 2, 4, 5, 10, 12, 13, 15, 18, 20, 21, 23, 24, 27, 33, 35, 36, 40, 41, 45, 47, 50, 57, 59, 64, 66, 67, 69, 70, 73, 74, 76, 80, 83, 85, 89, 90, 92, 94, 95, 99, 100, 101, 103, 110, 112, 115, 116, 118, 0, 1, 10, 11, 13, 14, 17, 18, 19, 22, 24, 29, 30, 36, 37, 38, 40, 43, 44, 48, 49, 50, 51, 53, 55, 56, 58, 61, 62, 63, 66, 67, 68, 69, 71, 72, 73, 74, 75, 78, 79, 82, 84, 86, 87, 90, 93, 97, 99, 100, 101, 107, 111, 114, 115, 117, 119, 0, 3, 4, 6, 8, 10, 12, 14, 18, 19, 20, 22, 23, 24, 25, 28, 32, 35, 39, 41, 44, 47, 51, 52, 55, 58, 59, 63, 67, 68, 69, 70, 76, 80, 82, 84, 85, 91, 92, 93, 95, 97, 103, 104, 105, 108, 110, 112, 0, 2, 5, 7, 8, 11, 12, 13, 14, 19, 23, 24, 29, 32, 33, 34, 35, 41, 51, 60, 64, 66, 68, 69, 70, 73, 74, 80, 84, 86, 89, 99, 100, 101, 102, 105, 107, 113, 117, 6, 8, 11, 12, 13, 19, 25, 26, 27, 28, 35, 40, 44, 48, 50, 51, 55, 57, 62, 63, 67, 68, 71, 74, 77, 79, 81, 85, 88, 89, 92, 93, 94, 100, 103, 111, 112, 113, 114, 117, 119, 2, 7, 8, 14, 17, 18, 20, 21, 22, 24, 31, 32, 33, 34, 35, 36, 37, 41, 47, 48, 49, 50, 51, 57, 58, 61, 62, 68, 71, 73, 75, 76, 77, 78, 79, 82, 83, 84, 85, 87, 89, 91, 92, 94, 96, 98, 104, 106, 107, 109, 116, 117, 0, 1, 2, 3, 6, 8, 9, 12, 13, 16, 20, 22, 23, 26, 31, 36, 37, 39, 43, 44, 45, 46, 52, 55, 57, 63, 65, 70, 74, 75, 77, 78, 79, 80, 81, 85, 86, 88, 91, 94, 96, 97, 104, 105, 107, 112, 115, 116, 118, 1, 2, 4, 6, 7, 9, 10, 15, 16, 17, 21, 22, 23, 29, 31, 32, 33, 34, 36, 37, 41, 43, 44, 47, 49, 51, 54, 57, 58, 59, 62, 65, 68, 70, 71, 72, 73, 74, 79, 80, 81, 86, 88, 89, 93, 94, 96, 98, 99, 101, 104, 107, 112, 113, 114, 115, 117, 119, 6, 9, 11, 12, 13, 19, 26, 29, 32, 33, 35, 37, 39, 44, 47, 56, 62, 63, 68, 71, 72, 74, 75, 76, 80, 88, 92, 95, 99, 102, 103, 104, 105, 108, 109, 112, 113, 116, 117, 11, 13, 14, 17, 21, 22, 29, 32, 34, 35, 37, 42, 45, 47, 49, 54, 55, 56, 60, 62, 63, 64, 68, 70, 71, 72, 78, 80, 81, 82, 83, 84, 86, 89, 90, 91, 93, 98, 101, 104, 106, 109, 112, 114, 116, 117, 5, 7, 10, 11, 18, 21, 22, 24, 28, 32, 34, 35, 39, 40, 41, 43, 44, 48, 52, 55, 56, 57, 58, 63, 64, 66, 68, 69, 71, 76, 79, 90, 95, 97, 100, 101, 104, 106, 108, 112, 113, 114, 115, 117, 2, 7, 19, 22, 23, 25, 26, 28, 29, 30, 31, 32, 34, 39, 41, 42, 43, 48, 49, 51, 52, 55, 67, 68, 70, 71, 75, 80, 81, 83, 85, 88, 89, 91, 93, 98, 99, 100, 107, 109, 112, 113, 114, 115, 116, 119, 3, 8, 10, 11, 12, 13, 15, 23, 24, 26, 27, 28, 30, 35, 46, 49, 52, 56, 58, 60, 61, 64, 65, 67, 70, 75, 76, 78, 79, 82, 85, 87, 89, 90, 92, 95, 96, 98, 99, 100, 101, 106, 108, 112, 113, 114, 117, 118, 4, 6, 8, 11, 12, 13, 18, 21, 24, 27, 29, 35, 40, 41, 47, 48, 49, 51, 55, 56, 59, 61, 63, 64, 66, 67, 70, 71, 75, 76, 77, 79, 80, 81, 83, 88, 93, 96, 98, 102, 103, 104, 105, 109, 110, 115, 118, 119, 2, 4, 10, 13, 14, 17, 22, 29, 32, 33, 41, 42, 44, 54, 62, 63, 65, 68, 69, 76, 77, 78, 81, 90, 95, 97, 99, 102, 104, 105, 106, 107, 108, 109, 112, 116, 118, 0, 2, 4, 6, 9, 12, 14, 17, 18, 19, 21, 25, 27, 30, 31, 33, 35, 36, 41, 43, 45, 47, 48, 52, 55, 56, 57, 59, 60, 62, 69, 70, 72, 74, 75, 79, 85, 89, 90, 92, 94, 95, 97, 103, 106, 110, 111, 114, 119, 1, 4, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 19, 20, 21, 23, 29, 33, 35, 36, 44, 45, 47, 48, 50, 55, 57, 61, 63, 64, 67, 68, 70, 71, 74, 79, 83, 84, 85, 88, 90, 91, 92, 95, 96, 97, 99, 101, 107, 111, 113, 115, 116, 1, 5, 9, 11, 12, 16, 17, 22, 25, 28, 29, 32, 33, 34, 35, 37, 38, 40, 43, 44, 45, 49, 50, 53, 54, 56, 57, 60, 62, 63, 64, 65, 68, 69, 73, 74, 75, 76, 82, 83, 85, 89, 90, 107, 110, 112, 114, 1, 2, 5, 10, 11, 18, 20, 22, 23, 24, 26, 31, 32, 33, 34, 35, 37, 40, 41, 42, 45, 48, 49, 52, 58, 59, 60, 63, 67, 68, 71, 72, 74, 77, 80, 83, 86, 91, 92, 93, 95, 96, 100, 101, 103, 106, 107, 110, 114, 117, 119, 0, 3, 4, 12, 13, 15, 16, 18, 27, 33, 35, 36, 37, 38, 44, 53, 55, 56, 57, 58, 61, 63, 66, 69, 70, 71, 73, 74, 75, 77, 79, 80, 83, 84, 88, 89, 90, 92, 97, 98, 99, 100, 101, 103, 104, 105, 106, 111, 1, 2, 6, 7, 12, 14, 17, 18, 20, 22, 31, 33, 34, 38, 39, 41, 44, 45, 46, 49, 54, 56, 57, 61, 63, 66, 67, 69, 73, 74, 77, 79, 80, 81, 84, 86, 87, 88, 90, 94, 96, 100, 105, 108, 111, 114, 116, 119, 6, 9, 13, 17, 19, 20, 21, 30, 31, 37, 38, 39, 41, 42, 43, 45, 47, 55, 57, 58, 62, 67, 69, 70, 71, 72, 74, 75, 78, 79, 84, 85, 86, 87, 91, 96, 97, 98, 100, 107, 110, 111, 112, 113, 114, 118, 0, 2, 15, 18, 19, 20, 24, 25, 30, 33, 35, 37, 44, 50, 51, 54, 55, 58, 60, 61, 69, 70, 72, 77, 78, 79, 80, 81, 83, 86, 88, 90, 93, 95, 96, 97, 99, 100, 101, 102, 103, 104, 105, 106, 116, 119, 0, 1, 3, 6, 7, 8, 10, 11, 12, 16, 17, 19, 20, 21, 24, 25, 26, 32, 33, 37, 40, 41, 44, 49, 51, 53, 54, 57, 59, 61, 70, 74, 75, 78, 79, 84, 88, 91, 92, 95, 96, 98, 100, 102, 112, 119, 0, 1, 2, 4, 7, 15, 18, 21, 22, 27, 34, 36, 37, 40, 41, 46, 48, 49, 57, 61, 63, 65, 75, 78, 80, 82, 84, 87, 90, 93, 98, 99, 107, 110, 114, 115, 116, 118, 119, 0, 5, 13, 14, 16, 18, 19, 23, 27, 29, 31, 32, 35, 36, 39, 41, 54, 55, 56, 57, 58, 61, 62, 70, 72, 78, 79, 87, 88, 95, 98, 101, 102, 106, 107, 110, 112, 114, 115, 1, 2, 4, 5, 8, 9, 10, 11, 12, 14, 18, 19, 23, 24, 26, 29, 30, 32, 33, 34, 35, 38, 40, 43, 44, 46, 52, 64, 66, 67, 68, 69, 70, 71, 72, 76, 82, 83, 84, 86, 87, 90, 92, 93, 94, 95, 99, 101, 104, 105, 108, 109, 110, 112, 116, 119, 0, 1, 2, 5, 14, 18, 24, 25, 26, 30, 31, 35, 36, 37, 43, 44, 47, 56, 62, 63, 64, 67, 70, 73, 74, 76, 79, 81, 84, 85, 86, 87, 88, 89, 91, 93, 95, 96, 101, 104, 105, 106, 116, 118, 0, 6, 7, 10, 12, 13, 14, 15, 19, 20, 27, 29, 30, 31, 34, 35, 36, 40, 41, 42, 44, 45, 50, 53, 57, 59, 63, 69, 70, 71, 73, 76, 77, 84, 87, 98, 99, 105, 107, 108, 110, 116, 118, 3, 6, 9, 12, 13, 19, 20, 21, 23, 24, 25, 27, 31, 33, 36, 49, 50, 52, 54, 59, 61, 65, 66, 67, 70, 73, 75, 76, 78, 82, 83, 87, 88, 91, 96, 98, 99, 100, 102, 104, 105, 108, 111, 113, 118, 1, 5, 6, 7, 11, 18, 21, 24, 26, 28, 33, 36, 42, 46, 49, 56, 58, 59, 63, 64, 67, 70, 71, 75, 81, 83, 91, 93, 94, 95, 96, 100, 101, 102, 103, 107, 108, 113, 114, 1, 7, 8, 9, 12, 14, 18, 20, 22, 23, 27, 29, 33, 34, 35, 37, 38, 40, 41, 44, 47, 48, 49, 50, 51, 52, 56, 59, 60, 61, 66, 67, 71, 72, 76, 77, 80, 83, 87, 93, 95, 98, 99, 100, 101, 104, 105, 108, 114, 115, 116, 1, 5, 9, 10, 11, 15, 17, 21, 22, 24, 25, 27, 28, 31, 33, 34, 39, 41, 43, 46, 48, 49, 54, 58, 59, 60, 65, 72, 76, 77, 91, 93, 94, 104, 106, 108, 112, 5, 7, 9, 12, 13, 16, 19, 21, 32, 35, 39, 43, 44, 45, 49, 51, 56, 57, 62, 64, 65, 68, 69, 71, 72, 75, 77, 78, 79, 82, 83, 87, 89, 90, 92, 96, 98, 100, 103, 106, 108, 109, 111, 112, 115, 116, 117, 2, 3, 4, 6, 8, 10, 12, 15, 16, 18, 19, 24, 26, 31, 34, 36, 37, 39, 41, 42, 47, 53, 60, 63, 69, 71, 72, 73, 82, 88, 89, 90, 91, 92, 95, 97, 101, 103, 104, 105, 110, 115, 116, 0, 3, 6, 13, 14, 15, 16, 17, 19, 20, 23, 26, 30, 31, 36, 38, 41, 42, 43, 49, 50, 54, 59, 61, 69, 73, 74, 75, 83, 87, 89, 90, 91, 93, 98, 101, 102, 106, 110, 113, 115, 0, 2, 4, 5, 8, 9, 17, 19, 25, 26, 27, 30, 32, 33, 36, 37, 43, 45, 46, 48, 49, 50, 54, 57, 58, 59, 60, 61, 62, 67, 79, 80, 84, 88, 91, 92, 97, 103, 106, 116, 1, 2, 3, 5, 11, 13, 16, 17, 18, 20, 21, 22, 24, 25, 26, 30, 32, 33, 39, 40, 41, 44, 45, 46, 48, 54, 55, 59, 60, 65, 67, 68, 70, 71, 73, 75, 77, 78, 80, 83, 84, 85, 89, 92, 96, 97, 98, 100, 101, 102, 106, 109, 110, 111, 113, 116, 0, 1, 2, 4, 8, 13, 14, 15, 17, 18, 19, 20, 24, 29, 31, 33, 34, 37, 40, 43, 44, 45, 49, 53, 59, 61, 65, 67, 68, 72, 73, 74, 76, 77, 80, 84, 86, 87, 89, 91, 92, 93, 98, 99, 108, 110, 111, 112, 116, 117, 0, 1, 4, 5, 8, 11, 12, 21, 22, 24, 25, 28, 31, 32, 36, 37, 38, 43, 47, 49, 53, 56, 57, 59, 60, 61, 66, 67, 71, 75, 76, 77, 83, 89, 92, 93, 95, 96, 99, 101, 102, 103, 106, 107, 109, 115, 116, 117, 0, 3, 5, 7, 8, 9, 11, 13, 15, 16, 17, 18, 21, 24, 26, 28, 33, 39, 40, 41, 43, 45, 49, 53, 54, 55, 57, 58, 60, 63, 64, 71, 73, 77, 78, 79, 82, 86, 90, 93, 97, 99, 103, 104, 105, 112, 115, 1, 2, 3, 5, 9, 10, 11, 16, 17, 18, 25, 26, 27, 30, 34, 38, 44, 46, 47, 49, 50, 60, 62, 68, 69, 73, 75, 79, 81, 83, 84, 85, 88, 89, 99, 101, 103, 104, 105, 106, 107, 109, 110, 111, 116, 119, 2, 3, 4, 6, 8, 10, 13, 14, 15, 18, 21, 23, 29, 30, 31, 33, 34, 36, 37, 39, 43, 48, 50, 51, 52, 53, 54, 56, 57, 58, 61, 70, 71, 73, 76, 79, 80, 82, 86, 89, 90, 92, 100, 102, 105, 106, 107, 110, 111, 114, 119, 1, 5, 9, 11, 15, 16, 18, 20, 23, 24, 31, 35, 36, 39, 46, 49, 52, 54, 55, 58, 60, 63, 66, 70, 71, 74, 78, 80, 81, 82, 83, 85, 88, 93, 94, 95, 97, 98, 99, 100, 106, 108, 110, 114, 115, 116, 118, 119, 3, 4, 5, 6, 11, 17, 20, 21, 24, 25, 28, 29, 34, 36, 38, 40, 41, 43, 47, 48, 49, 53, 55, 56, 57, 61, 63, 64, 65, 69, 70, 73, 74, 76, 77, 79, 80, 81, 86, 87, 88, 96, 102, 106, 107, 108, 110, 115, 117, 9, 15, 20, 22, 31, 38, 43, 44, 51, 52, 57, 60, 62, 65, 70, 71, 74, 76, 77, 78, 80, 85, 86, 87, 90, 93, 95, 100, 102, 104, 105, 106, 107, 109, 114, 116, 118, 1, 3, 9, 13, 14, 15, 17, 22, 23, 27, 28, 29, 30, 33, 34, 37, 38, 39, 41, 44, 49, 50, 58, 59, 60, 62, 66, 68, 69, 74, 77, 78, 80, 81, 86, 87, 89, 92, 102, 104, 105, 106, 108, 110, 112, 0, 2, 3, 4, 5, 7, 10, 11, 15, 16, 19, 26, 28, 30, 31, 32, 37, 39, 40, 41, 43, 44, 47, 48, 49, 51, 52, 54, 57, 59, 62, 63, 64, 66, 68, 70, 71, 72, 74, 75, 78, 82, 83, 86, 89, 93, 94, 96, 97, 99, 111, 119, 1, 6, 7, 8, 13, 14, 15, 17, 24, 26, 28, 31, 36, 38, 40, 44, 49, 51, 54, 56, 57, 61, 62, 63, 65, 67, 70, 71, 75, 76, 77, 81, 84, 92, 99, 100, 102, 104, 105, 108, 111, 112, 0, 1, 3, 8, 9, 12, 15, 16, 20, 22, 23, 24, 31, 34, 36, 37, 43, 47, 50, 59, 61, 62, 63, 66, 67, 68, 77, 82, 86, 87, 90, 93, 97, 100, 106, 109, 111, 114, 117, 118, 119, 0, 2, 3, 5, 6, 9, 14, 15, 16, 17, 21, 22, 23, 28, 39, 46, 53, 55, 57, 59, 60, 61, 62, 66, 71, 74, 75, 76, 78, 79, 80, 83, 84, 87, 89, 90, 93, 95, 97, 98, 99, 103, 108, 112, 114, 115, 118, 0, 15, 16, 18, 19, 24, 28, 31, 33, 34, 37, 39, 42, 43, 44, 50, 51, 61, 62, 65, 67, 70, 71, 73, 79, 80, 81, 82, 85, 86, 92, 96, 98, 99, 101, 102, 103, 107, 110, 117, 119, 2, 4, 5, 7, 12, 13, 14, 15, 21, 22, 30, 32, 33, 35, 37, 40, 56, 61, 64, 65, 67, 69, 71, 73, 74, 75, 82, 83, 84, 88, 91, 92, 93, 99, 101, 104, 108, 109, 110, 115, 116, 1, 2, 3, 9, 11, 12, 24, 26, 29, 30, 32, 33, 38, 40, 41, 46, 49, 51, 54, 57, 62, 64, 65, 66, 69, 76, 78, 79, 80, 81, 83, 86, 88, 89, 90, 93, 96, 97, 99, 102, 113, 114, 116, 117, 3, 5, 7, 8, 12, 14, 16, 17, 18, 21, 24, 26, 28, 29, 30, 35, 38, 47, 49, 51, 52, 53, 54, 57, 61, 62, 63, 66, 67, 69, 73, 78, 79, 86, 87, 88, 92, 95, 97, 98, 100, 102, 103, 110, 111, 112, 114, 118, 1, 7, 8, 12, 13, 16, 17, 18, 20, 22, 23, 25, 27, 29, 31, 32, 36, 37, 41, 46, 48, 54, 59, 60, 62, 64, 69, 75, 78, 81, 83, 84, 85, 86, 88, 92, 93, 98, 99, 100, 102, 103, 107, 109, 113, 117, 118, 0, 2, 4, 6, 8, 10, 13, 16, 17, 20, 21, 23, 25, 27, 31, 32, 33, 34, 35, 37, 41, 44, 45, 46, 47, 49, 50, 52, 54, 55, 56, 57, 60, 64, 71, 76, 79, 81, 82, 83, 86, 91, 93, 97, 98, 99, 100, 101, 104, 105, 106, 109, 111, 113, 117, 3, 4, 6, 9, 11, 13, 15, 16, 17, 18, 19, 21, 27, 30, 33, 35, 38, 39, 40, 48, 49, 51, 52, 56, 57, 61, 65, 67, 71, 72, 74, 78, 79, 80, 81, 85, 87, 89, 90, 91, 93, 96, 98, 106, 107, 108, 116, 119, 4, 5, 8, 10, 13, 14, 15, 18, 19, 22, 24, 29, 30, 31, 34, 39, 41, 42, 43, 46, 47, 48, 49, 50, 51, 53, 55, 63, 67, 69, 70, 72, 74, 75, 81, 82, 85, 87, 90, 92, 96, 99, 100, 107, 108, 110, 114, 117, 0, 2, 7, 8, 9, 10, 11, 13, 18, 20, 22, 24, 25, 26, 32, 33, 36, 39, 41, 42, 45, 50, 51, 52, 54, 56, 58, 63, 64, 65, 70, 71, 74, 79, 94, 99, 102, 103, 110, 113, 116, 118, 119, 3, 6, 10, 11, 13, 16, 23, 25, 30, 34, 35, 36, 39, 41, 48, 49, 50, 52, 58, 61, 62, 68, 69, 70, 71, 76, 77, 80, 82, 83, 86, 88, 92, 97, 103, 107, 108, 111, 112, 114, 115, 116, 117, 118, 5, 11, 12, 20, 23, 25, 28, 29, 31, 33, 38, 40, 41, 49, 50, 52, 58, 65, 66, 71, 73, 74, 77, 78, 79, 84, 87, 88, 92, 99, 100, 103, 104, 106, 110, 112, 114, 116, 118, 0, 3, 4, 5, 7, 8, 10, 13, 16, 20, 21, 25, 26, 27, 31, 34, 37, 46, 49, 50, 53, 58, 59, 60, 61, 64, 66, 67, 68, 69, 76, 78, 79, 81, 83, 91, 96, 103, 107, 108, 110, 112, 116, 117, 0, 1, 5, 6, 7, 12, 14, 15, 19, 22, 23, 24, 25, 26, 29, 33, 37, 39, 40, 41, 44, 47, 48, 52, 55, 60, 63, 68, 71, 78, 80, 82, 85, 86, 90, 94, 95, 99, 100, 104, 107, 109, 112, 113, 115, 117, 118, 2, 4, 5, 7, 12, 13, 14, 17, 22, 24, 31, 32, 33, 43, 45, 47, 50, 51, 53, 54, 57, 59, 60, 61, 63, 68, 75, 80, 84, 85, 87, 88, 89, 90, 93, 94, 95, 97, 98, 102, 104, 105, 109, 111, 112, 115, 0, 1, 2, 4, 6, 8, 11, 13, 14, 17, 19, 20, 24, 26, 28, 29, 30, 32, 34, 35, 41, 43, 44, 47, 48, 52, 55, 59, 61, 62, 63, 66, 68, 69, 72, 75, 83, 87, 93, 95, 97, 98, 99, 103, 104, 105, 106, 107, 110, 111, 112, 114, 116, 119, 0, 1, 4, 5, 6, 7, 11, 13, 16, 18, 21, 22, 25, 26, 28, 34, 35, 36, 45, 46, 48, 49, 51, 53, 54, 56, 57, 59, 61, 62, 63, 64, 68, 69, 73, 74, 77, 91, 94, 96, 103, 105, 106, 108, 114, 0, 4, 5, 14, 17, 18, 22, 26, 28, 30, 34, 35, 36, 40, 42, 43, 44, 46, 50, 52, 54, 55, 56, 59, 62, 65, 66, 70, 74, 75, 76, 78, 82, 83, 84, 88, 90, 93, 94, 96, 103, 104, 107, 116, 119, 1, 3, 4, 11, 12, 15, 23, 24, 25, 27, 30, 31, 32, 33, 38, 39, 42, 44, 47, 53, 54, 57, 61, 63, 64, 65, 70, 75, 78, 79, 80, 81, 90, 97, 98, 99, 105, 106, 107, 109, 110, 111, 114, 118, 0, 2, 3, 4, 6, 7, 8, 9, 12, 14, 17, 21, 22, 23, 24, 25, 31, 32, 33, 34, 37, 38, 39, 42, 44, 45, 49, 52, 54, 57, 67, 70, 71, 72, 73, 74, 79, 80, 85, 86, 88, 89, 94, 101, 106, 107, 109, 110, 112, 119, 0, 3, 4, 6, 7, 9, 11, 15, 17, 20, 21, 23, 24, 29, 30, 34, 37, 45, 46, 49, 50, 54, 57, 58, 66, 70, 73, 77, 78, 81, 86, 88, 89, 90, 95, 96, 97, 99, 100, 102, 106, 110, 113, 116, 118, 0, 2, 6, 8, 9, 10, 11, 12, 13, 15, 17, 19, 20, 23, 26, 29, 32, 33, 43, 53, 55, 58, 60, 62, 63, 64, 66, 67, 68, 72, 74, 75, 80, 83, 84, 85, 90, 92, 95, 98, 99, 100, 102, 107, 116, 117, 119, 7, 8, 13, 17, 19, 22, 24, 27, 29, 32, 34, 36, 41, 42, 43, 45, 49, 50, 51, 53, 54, 57, 59, 62, 65, 69, 71, 74, 76, 79, 83, 85, 86, 87, 88, 90, 91, 95, 101, 103, 106, 114, 116, 118, 0, 1, 2, 4, 5, 6, 9, 16, 17, 19, 25, 26, 28, 30, 31, 32, 33, 46, 48, 54, 56, 58, 60, 62, 65, 67, 72, 75, 76, 78, 79, 84, 87, 99, 101, 102, 104, 105, 108, 109, 110, 111, 112, 118, 7, 10, 14, 17, 18, 20, 23, 24, 27, 28, 29, 30, 32, 34, 36, 37, 39, 41, 42, 43, 47, 51, 52, 61, 62, 64, 65, 68, 70, 71, 75, 77, 79, 81, 85, 87, 88, 92, 93, 96, 98, 101, 102, 104, 105, 108, 109, 111, 115, 116, 117, 118, 119, 0, 2, 3, 5, 11, 14, 15, 17, 19, 21, 23, 28, 30, 31, 32, 33, 39, 40, 41, 43, 47, 48, 50, 51, 53, 54, 65, 70, 71, 75, 78, 79, 80, 82, 83, 86, 87, 88, 89, 90, 94, 98, 102, 103, 105, 108, 110, 111, 112, 115, 3, 11, 12, 18, 19, 23, 26, 28, 32, 35, 37, 38, 40, 41, 43, 44, 50, 52, 55, 56, 57, 59, 62, 63, 64, 65, 66, 69, 71, 72, 77, 82, 83, 85, 86, 91, 93, 94, 95, 99, 101, 102, 103, 104, 107, 108, 113, 114, 116, 118, 119, 2, 9, 10, 11, 13, 14, 15, 18, 20, 25, 27, 28, 29, 33, 36, 38, 39, 44, 51, 56, 62, 63, 64, 67, 68, 69, 72, 75, 78, 79, 82, 83, 84, 88, 90, 91, 93, 94, 95, 97, 98, 100, 104, 105, 107, 111, 112, 113, 115, 117, 1, 2, 3, 4, 5, 6, 7, 8, 14, 15, 19, 22, 24, 25, 26, 27, 28, 29, 33, 36, 40, 41, 42, 46, 47, 54, 57, 61, 70, 71, 73, 76, 78, 80, 82, 83, 87, 88, 90, 91, 95, 98, 99, 101, 103, 106, 107, 109, 112, 118, 1, 3, 7, 8, 10, 11, 12, 14, 19, 24, 28, 30, 32, 34, 35, 37, 40, 41, 42, 43, 46, 47, 51, 52, 53, 57, 58, 62, 63, 68, 70, 71, 73, 74, 85, 88, 89, 92, 98, 101, 102, 103, 104, 105, 106, 107, 112, 114, 116, 117, 0, 1, 9, 14, 15, 18, 20, 22, 25, 29, 31, 32, 34, 36, 39, 40, 47, 53, 55, 64, 69, 73, 79, 83, 85, 86, 87, 98, 103, 104, 108, 111, 114, 115, 2, 7, 8, 9, 13, 15, 16, 17, 18, 19, 21, 22, 25, 26, 31, 32, 33, 34, 39, 41, 42, 46, 48, 50, 53, 57, 59, 60, 63, 64, 66, 67, 70, 72, 77, 83, 85, 90, 92, 95, 97, 98, 99, 100, 107, 113, 114, 115, 116, 3, 4, 6, 16, 18, 19, 23, 24, 25, 26, 27, 30, 31, 32, 34, 40, 45, 52, 53, 54, 56, 60, 63, 64, 65, 68, 69, 70, 79, 84, 86, 87, 88, 90, 92, 94, 95, 97, 99, 100, 102, 107, 108, 110, 119, 0, 5, 6, 11, 12, 19, 22, 23, 31, 32, 36, 39, 40, 41, 42, 43, 44, 48, 49, 54, 58, 59, 60, 61, 62, 64, 65, 69, 70, 71, 74, 81, 82, 85, 87, 88, 93, 94, 95, 97, 98, 101, 102, 104, 110, 118, 119, 0, 3, 5, 6, 8, 13, 14, 15, 16, 20, 24, 25, 27, 29, 31, 40, 43, 49, 50, 51, 52, 57, 59, 60, 61, 70, 71, 83, 84, 85, 87, 89, 90, 92, 95, 96, 99, 102, 103, 104, 107, 108, 111, 112, 114, 115, 117, 118, 119, 3, 4, 5, 8, 10, 12, 13, 16, 17, 24, 29, 30, 31, 32, 34, 35, 36, 37, 40, 43, 44, 45, 46, 47, 52, 56, 58, 59, 65, 66, 67, 68, 69, 70, 71, 73, 74, 75, 76, 78, 80, 81, 85, 90, 91, 92, 98, 99, 101, 104, 105, 109, 117, 118, 5, 8, 14, 17, 18, 21, 22, 25, 26, 27, 28, 33, 34, 35, 39, 41, 42, 43, 45, 47, 49, 50, 54, 55, 58, 62, 70, 71, 73, 75, 79, 82, 84, 85, 89, 93, 102, 103, 109, 110, 112, 117, 118, 2, 3, 8, 10, 12, 16, 17, 19, 23, 24, 25, 27, 30, 31, 33, 34, 35, 39, 42, 43, 44, 45, 48, 49, 51, 54, 57, 58, 59, 60, 62, 64, 70, 71, 72, 74, 75, 77, 78, 81, 86, 87, 89, 90, 92, 97, 98, 99, 100, 101, 104, 106, 108, 112, 115, 119, 2, 3, 6, 9, 10, 14, 17, 20, 22, 25, 26, 28, 31, 37, 39, 45, 46, 48, 50, 52, 54, 55, 57, 58, 59, 60, 61, 64, 66, 71, 72, 73, 74, 76, 80, 84, 87, 89, 91, 93, 95, 97, 98, 101, 102, 105, 109, 112, 113, 114, 116, 0, 1, 4, 7, 8, 10, 11, 12, 13, 17, 18, 24, 26, 27, 28, 29, 30, 31, 34, 35, 41, 47, 49, 51, 52, 54, 60, 62, 63, 64, 66, 69, 70, 72, 73, 76, 77, 78, 80, 81, 83, 84, 86, 90, 91, 93, 95, 96, 100, 102, 104, 108, 111, 112, 114, 117, 118, 119, 0, 1, 2, 6, 8, 14, 15, 18, 29, 33, 35, 40, 43, 46, 50, 52, 54, 59, 62, 63, 66, 69, 70, 71, 72, 79, 80, 81, 84, 85, 86, 87, 91, 96, 100, 104, 107, 110, 111, 119, 0, 2, 4, 6, 8, 9, 11, 14, 19, 22, 24, 25, 28, 29, 30, 31, 32, 36, 37, 41, 49, 51, 52, 53, 54, 55, 56, 61, 62, 63, 64, 65, 68, 70, 74, 76, 84, 87, 88, 89, 91, 92, 94, 96, 101, 102, 103, 104, 105, 106, 107, 111, 114, 2, 5, 8, 9, 11, 14, 15, 18, 19, 25, 27, 28, 29, 31, 32, 44, 45, 49, 50, 52, 53, 58, 60, 61, 62, 63, 67, 72, 73, 75, 79, 80, 82, 83, 85, 87, 90, 91, 93, 94, 96, 102, 103, 104, 105, 106, 108, 109, 111, 114, 116, 119, 1, 10, 14, 19, 21, 23, 33, 36, 38, 42, 44, 46, 48, 54, 56, 57, 58, 59, 62, 63, 64, 67, 71, 73, 74, 75, 77, 78, 81, 83, 84, 86, 100, 102, 103, 106, 110, 112, 114, 115, 116, 118, 119, 3, 5, 8, 11, 15, 18, 19, 20, 21, 26, 30, 32, 33, 36, 37, 39, 40, 42, 43, 50, 51, 58, 59, 64, 67, 68, 69, 70, 73, 74, 76, 79, 80, 82, 83, 85, 90, 91, 92, 96, 104, 106, 113, 115, 116, 3, 4, 5, 11, 13, 17, 22, 27, 33, 35, 36, 37, 38, 41, 42, 45, 47, 52, 53, 55, 57, 62, 65, 69, 72, 74, 76, 78, 79, 83, 88, 89, 91, 92, 94, 99, 100, 102, 105, 106, 109, 111, 3, 5, 6, 7, 10, 11, 12, 14, 20, 21, 24, 28, 30, 32, 37, 41, 47, 51, 52, 54, 59, 60, 61, 62, 64, 66, 72, 77, 79, 82, 86, 89, 90, 98, 100, 104, 107, 109, 115, 116, 119, 3, 4, 6, 7, 8, 9, 10, 18, 20, 22, 24, 26, 28, 29, 32, 34, 36, 39, 40, 48, 49, 52, 53, 54, 57, 58, 60, 61, 62, 64, 66, 68, 73, 83, 85, 89, 91, 92, 94, 95, 101, 103, 106, 107, 108, 109, 111, 118, 0, 2, 5, 6, 8, 9, 11, 13, 14, 16, 17, 19, 20, 23, 27, 28, 29, 31, 32, 33, 35, 36, 38, 42, 43, 46, 49, 51, 54, 57, 60, 61, 62, 68, 71, 73, 74, 75, 76, 78, 79, 80, 81, 84, 85, 86, 88, 91, 93, 95, 98, 100, 102, 103, 106, 110, 111, 112, 115, 118, 0, 1, 3, 7, 13, 20, 21, 23, 27, 29, 34, 37, 43, 46, 48, 50, 51, 52, 56, 58, 59, 60, 62, 63, 65, 68, 71, 72, 74, 75, 76, 77, 81, 84, 85, 86, 88, 89, 97, 100, 103, 105, 106, 107, 108, 113, 114, 115, 117, 0, 4, 5, 6, 11, 14, 15, 16, 18, 19, 20, 21, 24, 28, 33, 34, 36, 37, 38, 39, 40, 41, 42, 45, 48, 49, 51, 54, 56, 59, 60, 62, 67, 87, 90, 91, 93, 96, 105, 109, 110, 112, 113, 114, 115, 116, 119, 0, 1, 4, 6, 8, 11, 14, 17, 19, 25, 27, 28, 34, 36, 40, 41, 43, 46, 49, 50, 55, 56, 57, 65, 67, 71, 72, 79, 83, 84, 90, 91, 97, 103, 105, 106, 107, 110, 113, 117, 4, 5, 9, 10, 14, 15, 19, 20, 23, 25, 26, 34, 43, 44, 45, 46, 48, 49, 50, 54, 55, 56, 58, 61, 62, 65, 66, 67, 74, 75, 76, 77, 82, 83, 84, 85, 87, 89, 96, 97, 99, 102, 103, 104, 105, 106, 107, 108, 109, 110, 112, 117, 119, 2, 6, 8, 11, 12, 14, 15, 21, 26, 27, 29, 31, 33, 38, 39, 42, 43, 44, 46, 47, 49, 50, 51, 52, 54, 56, 58, 59, 61, 62, 63, 66, 70, 75, 77, 79, 80, 82, 84, 85, 86, 87, 90, 95, 100, 101, 104, 108, 114, 115, 116, 118, 119, 2, 4, 5, 9, 10, 13, 14, 15, 16, 18, 24, 25, 26, 30, 32, 33, 35, 36, 37, 38, 41, 42, 43, 45, 46, 47, 57, 64, 65, 71, 74, 75, 84, 86, 91, 98, 101, 102, 105, 110, 111, 114, 4, 7, 12, 15, 16, 21, 25, 26, 28, 30, 33, 36, 37, 38, 39, 40, 41, 46, 47, 48, 51, 52, 54, 57, 58, 62, 63, 64, 73, 84, 85, 87, 90, 99, 105, 108, 114, 115, 117, 0, 1, 2, 3, 9, 10, 12, 17, 21, 23, 26, 31, 33, 34, 35, 36, 39, 42, 46, 47, 48, 51, 52, 53, 54, 55, 56, 58, 59, 60, 61, 62, 64, 65, 66, 69, 73, 75, 78, 80, 84, 85, 89, 92, 93, 104, 109, 112, 113, 4, 7, 8, 11, 13, 16, 17, 18, 21, 22, 26, 29, 30, 31, 32, 37, 38, 39, 40, 47, 48, 50, 53, 54, 55, 57, 60, 61, 63, 64, 65, 66, 67, 68, 70, 71, 81, 82, 84, 85, 88, 89, 90, 92, 93, 94, 95, 96, 100, 104, 108, 112, 117, 118, 2, 3, 4, 11, 14, 15, 17, 18, 20, 25, 27, 31, 33, 34, 35, 36, 40, 43, 50, 51, 52, 54, 57, 61, 62, 69, 72, 74, 77, 79, 82, 85, 87, 91, 92, 95, 97, 98, 99, 104, 105, 108, 115, 117, 118, 2, 3, 6, 7, 8, 9, 11, 12, 14, 15, 16, 21, 24, 28, 30, 32, 35, 37, 38, 39, 45, 46, 47, 48, 54, 58, 59, 62, 64, 67, 68, 71, 72, 74, 75, 76, 77, 78, 80, 82, 85, 86, 89, 90, 91, 95, 101, 102, 103, 104, 110, 111, 116, 118, 0, 2, 7, 8, 13, 14, 15, 16, 19, 22, 26, 27, 31, 33, 36, 37, 41, 43, 45, 51, 58, 62, 64, 66, 69, 70, 73, 75, 79, 82, 85, 86, 89, 90, 91, 94, 95, 100, 103, 104, 106, 109, 118, 0, 2, 4, 9, 18, 21, 27, 28, 30, 31, 32, 33, 35, 36, 37, 41, 44, 45, 46, 48, 50, 52, 56, 59, 62, 67, 68, 69, 71, 72, 73, 74, 76, 79, 84, 86, 87, 89, 90, 93, 94, 98, 104, 108, 110, 112, 115, 116, 117, 2, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19, 20, 22, 26, 27, 28, 29, 30, 32, 35, 36, 37, 39, 40, 41, 42, 48, 50, 53, 54, 55, 61, 62, 63, 67, 70, 73, 76, 79, 80, 84, 85, 86, 89, 91, 93, 94, 95, 99, 101, 104, 105, 106, 109, 110, 112, 113, 117, 118, 119, 1, 2, 3, 4, 7, 8, 12, 13, 15, 16, 17, 22, 24, 28, 29, 30, 31, 32, 33, 36, 38, 42, 51, 52, 53, 54, 56, 58, 60, 61, 62, 71, 73, 75, 76, 78, 79, 87, 88, 90, 92, 99, 105, 106, 109, 112, 115, 118, 3, 4, 7, 8, 9, 10, 11, 14, 15, 16, 17, 20, 21, 22, 23, 25, 32, 42, 43, 46, 47, 51, 53, 54, 56, 58, 60, 62, 63, 65, 66, 68, 69, 70, 75, 77, 78, 80, 82, 85, 86, 90, 98, 99, 103, 104, 105, 107, 109, 110, 111, 114, 115, 2, 13, 18, 22, 25, 28, 32, 33, 35, 36, 38, 47, 48, 50, 53, 54, 59, 60, 61, 67, 68, 70, 72, 73, 74, 76, 77, 79, 80, 84, 85, 87, 88, 92, 94, 95, 96, 98, 99, 101, 102, 103, 104, 109, 110, 111, 112, 113, 114, 116, 0, 1, 3, 4, 10, 14, 15, 19, 20, 23, 26, 30, 31, 32, 34, 41, 44, 45, 47, 49, 52, 56, 58, 60, 63, 64, 70, 72, 73, 78, 80, 81, 83, 86, 90, 91, 92, 94, 96, 101, 102, 105, 106, 110, 112, 114, 115, 116, 118, 2, 5, 6, 8, 9, 20, 23, 24, 28, 29, 31, 33, 35, 37, 41, 43, 44, 47, 49, 54, 57, 60, 75, 76, 77, 85, 86, 95, 98, 100, 104, 105, 113, 114, 119, 2, 6, 7, 8, 9, 10, 11, 12, 14, 18, 21, 23, 27, 29, 31, 33, 34, 36, 39, 41, 42, 43, 47, 49, 52, 54, 55, 59, 60, 63, 64, 65, 66, 70, 75, 80, 81, 84, 86, 87, 88, 92, 93, 94, 102, 104, 106, 108, 112, 113, 114, 116, 117, 118, 0, 1, 3, 5, 6, 8, 10, 11, 25, 26, 28, 29, 31, 33, 35, 37, 38, 42, 43, 45, 46, 47, 54, 59, 66, 67, 70, 71, 72, 79, 81, 83, 84, 87, 89, 92, 94, 95, 96, 98, 100, 101, 102, 103, 106, 107, 108, 114, 115, 0, 1, 2, 3, 5, 10, 12, 17, 18, 19, 23, 24, 32, 33, 35, 41, 42, 45, 46, 47, 49, 52, 53, 54, 58, 60, 61, 62, 63, 65, 68, 71, 75, 81, 82, 86, 87, 88, 92, 93, 94, 98, 102, 104, 106, 107, 110, 113, 114, 117, 1, 3, 4, 7, 8, 9, 10, 16, 24, 26, 28, 31, 32, 34, 35, 39, 49, 51, 53, 56, 57, 68, 70, 72, 73, 74, 78, 82, 84, 85, 87, 96, 97, 101, 103, 105, 106, 109, 110, 111, 112, 114, 115, 1, 12, 14, 15, 18, 19, 20, 21, 25, 27, 28, 30, 33, 35, 36, 37, 40, 42, 43, 47, 48, 49, 51, 52, 54, 55, 58, 59, 61, 63, 64, 66, 67, 69, 71, 74, 75, 83, 90, 91, 92, 93, 94, 99, 100, 102, 105, 108, 110, 113, 119, 0, 4, 7, 12, 13, 14, 16, 19, 20, 27, 30, 33, 36, 38, 39, 40, 41, 44, 45, 49, 51, 53, 54, 61, 62, 70, 75, 76, 79, 82, 83, 85, 93, 95, 98, 99, 100, 103, 106, 110, 114, 118, 4, 6, 7, 9, 12, 13, 14, 17, 18, 20, 21, 28, 29, 30, 31, 34, 36, 37, 39, 40, 44, 49, 51, 56, 58, 61, 62, 63, 64, 65, 72, 81, 82, 84, 86, 87, 90, 93, 95, 96, 98, 99, 101, 102, 104, 105, 109, 113, 118, 119, 0, 5, 10, 13, 14, 17, 22, 24, 25, 33, 34, 41, 42, 46, 54, 57, 61, 62, 64, 66, 67, 68, 69, 71, 80, 83, 84, 86, 87, 88, 89, 91, 92, 95, 97, 100, 106, 108, 109, 112, 114, 115, 116, 117, 118, 119, 0, 2, 3, 4, 8, 9, 11, 14, 22, 23, 26, 28, 29, 36, 40, 42, 45, 47, 57, 58, 59, 62, 63, 68, 70, 71, 72, 75, 76, 77, 79, 81, 82, 86, 88, 89, 91, 92, 94, 100, 101, 104, 113, 114, 0, 4, 6, 8, 9, 11, 15, 16, 17, 18, 20, 21, 24, 25, 28, 30, 31, 35, 36, 37, 41, 46, 48, 50, 53, 55, 60, 62, 67, 68, 69, 70, 85, 87, 89, 99, 100, 103, 104, 107, 110, 111, 113, 114, 118, 119, 1, 2, 5, 6, 7, 10, 13, 19, 25, 28, 29, 31, 32, 35, 36, 37, 43, 48, 51, 54, 61, 62, 63, 67, 70, 72, 74, 76, 77, 78, 79, 84, 85, 87, 92, 93, 95, 97, 99, 102, 108, 111, 112, 113, 114, 115, 116, 119, 1, 2, 3, 4, 5, 6, 8, 10, 12, 18, 27, 33, 38, 39, 41, 42, 43, 45, 49, 50, 54, 56, 61, 62, 64, 67, 68, 70, 72, 73, 74, 77, 83, 89, 92, 95, 100, 101, 105, 110, 111, 114, 0, 1, 3, 4, 5, 9, 11, 15, 16, 17, 18, 20, 22, 23, 24, 25, 27, 30, 33, 37, 40, 41, 42, 44, 45, 46, 47, 49, 50, 63, 66, 68, 69, 72, 74, 76, 77, 78, 80, 81, 82, 85, 90, 92, 93, 94, 95, 96, 97, 98, 99, 102, 103, 104, 112, 114, 117, 119, 0, 1, 5, 9, 10, 12, 14, 15, 16, 18, 20, 22, 33, 36, 37, 38, 42, 44, 45, 46, 47, 50, 60, 61, 64, 66, 67, 68, 73, 74, 76, 80, 81, 85, 89, 94, 96, 98, 99, 100, 101, 103, 107, 109, 110, 111, 113, 116, 118, 0, 1, 4, 10, 11, 13, 14, 19, 21, 22, 24, 27, 29, 30, 32, 33, 34, 41, 42, 44, 46, 48, 51, 52, 53, 54, 55, 58, 62, 63, 65, 66, 68, 71, 72, 73, 74, 77, 78, 81, 83, 92, 93, 97, 100, 101, 104, 105, 108, 110, 112, 0, 2, 6, 8, 11, 13, 14, 15, 20, 21, 22, 25, 31, 32, 33, 36, 40, 41, 42, 45, 47, 48, 49, 50, 51, 55, 64, 65, 70, 73, 75, 76, 81, 82, 83, 85, 86, 92, 95, 99, 110, 115, 116, 117, 118, 119, 0, 6, 7, 12, 16, 17, 19, 21, 23, 25, 27, 28, 29, 30, 33, 35, 38, 40, 42, 43, 48, 54, 56, 57, 58, 61, 63, 65, 66, 67, 68, 69, 71, 74, 76, 79, 81, 83, 84, 86, 88, 89, 90, 91, 97, 98, 103, 107, 109, 110, 111, 119, 0, 3, 7, 8, 15, 18, 21, 22, 23, 30, 31, 35, 37, 39, 40, 41, 44, 45, 46, 47, 48, 49, 54, 55, 56, 57, 60, 61, 63, 65, 68, 69, 70, 72, 73, 77, 80, 84, 90, 91, 95, 101, 108, 115, 117, 119, 2, 3, 5, 8, 9, 15, 16, 18, 19, 20, 29, 31, 32, 33, 35, 36, 38, 41, 44, 51, 53, 55, 56, 57, 62, 65, 69, 70, 72, 74, 75, 80, 82, 83, 84, 90, 91, 93, 96, 99, 101, 115, 116, 1, 9, 10, 11, 12, 13, 15, 16, 23, 25, 29, 32, 34, 36, 37, 38, 39, 42, 46, 47, 53, 58, 60, 63, 64, 67, 69, 70, 71, 74, 76, 78, 83, 85, 86, 88, 95, 97, 99, 100, 103, 108, 109, 110, 111, 112, 113, 115, 117, 118, 119, 1, 5, 6, 11, 15, 16, 20, 23, 29, 31, 33, 35, 36, 37, 38, 39, 40, 41, 46, 49, 50, 51, 54, 55, 56, 60, 66, 71, 72, 73, 81, 83, 84, 86, 92, 93, 94, 97, 99, 101, 105, 106, 107, 108, 110, 114, 116, 0, 5, 10, 12, 13, 14, 21, 24, 25, 27, 28, 29, 34, 37, 38, 40, 42, 43, 44, 45, 49, 52, 55, 56, 59, 61, 63, 64, 65, 68, 70, 71, 73, 75, 77, 78, 80, 81, 82, 85, 91, 94, 101, 108, 114, 115, 117, 0, 1, 2, 3, 5, 7, 11, 12, 14, 16, 17, 22, 27, 28, 35, 37, 43, 48, 50, 54, 55, 56, 60, 62, 64, 65, 71, 72, 75, 77, 80, 84, 85, 87, 88, 89, 93, 94, 97, 113, 115, 116, 117, 13, 16, 18, 19, 20, 21, 22, 23, 25, 26, 27, 28, 29, 33, 35, 38, 39, 43, 46, 48, 49, 50, 51, 53, 55, 57, 58, 59, 66, 67, 72, 73, 75, 77, 79, 80, 81, 83, 85, 87, 89, 91, 96, 99, 103, 104, 107, 110, 116, 0, 2, 6, 7, 10, 11, 12, 18, 22, 23, 26, 29, 37, 40, 42, 45, 48, 51, 55, 56, 62, 64, 65, 72, 73, 76, 82, 83, 84, 86, 91, 94, 95, 97, 98, 101, 102, 103, 105, 109, 115, 117, 118, 119, 1, 8, 9, 16, 26, 28, 41, 43, 44, 45, 48, 49, 50, 54, 57, 62, 64, 66, 70, 74, 76, 78, 79, 80, 83, 87, 91, 98, 104, 105, 106, 108, 110, 118, 1, 5, 11, 13, 15, 16, 21, 24, 28, 29, 32, 34, 38, 43, 44, 46, 47, 50, 52, 53, 55, 57, 63, 64, 70, 71, 73, 74, 77, 80, 85, 87, 89, 91, 92, 94, 95, 99, 104, 107, 108, 110, 116, 0, 2, 7, 10, 14, 18, 19, 20, 21, 22, 24, 30, 34, 38, 42, 44, 46, 47, 48, 50, 52, 55, 56, 57, 59, 60, 62, 63, 64, 66, 68, 69, 71, 76, 82, 83, 84, 87, 88, 89, 92, 94, 97, 98, 99, 102, 105, 106, 107, 109, 110, 111, 113, 114, 116, 0, 2, 4, 11, 15, 18, 19, 21, 22, 23, 29, 30, 32, 33, 36, 39, 44, 49, 50, 52, 54, 56, 58, 63, 68, 72, 73, 75, 76, 79, 81, 82, 83, 84, 86, 87, 92, 94, 96, 97, 98, 99, 100, 101, 104, 105, 106, 107, 110, 112, 0, 8, 9, 10, 13, 14, 21, 22, 24, 25, 26, 30, 31, 36, 37, 39, 41, 43, 46, 47, 50, 52, 57, 62, 63, 67, 68, 69, 70, 71, 73, 78, 79, 85, 86, 87, 96, 97, 98, 102, 104, 105, 108, 110, 112, 114, 119, 1, 8, 9, 10, 12, 14, 20, 22, 23, 24, 26, 32, 36, 38, 39, 42, 46, 47, 52, 55, 56, 58, 60, 61, 62, 63, 64, 68, 69, 70, 71, 72, 75, 76, 78, 83, 84, 85, 86, 87, 88, 90, 93, 95, 97, 102, 104, 107, 109, 112, 115, 116, 118, 3, 4, 11, 16, 18, 20, 21, 24, 26, 29, 30, 32, 36, 38, 40, 45, 53, 57, 60, 61, 67, 70, 71, 72, 78, 80, 83, 87, 88, 89, 90, 91, 94, 95, 97, 98, 99, 106, 109, 110, 111, 113, 114, 0, 3, 7, 8, 9, 10, 11, 13, 14, 15, 21, 23, 24, 30, 34, 36, 38, 39, 40, 41, 44, 51, 52, 54, 55, 56, 57, 58, 59, 64, 65, 67, 68, 71, 75, 79, 80, 84, 87, 92, 93, 97, 100, 102, 105, 106, 110, 111, 112, 113, 114, 115, 116, 118, 119, 5, 15, 18, 19, 21, 25, 26, 27, 35, 37, 39, 41, 45, 46, 51, 52, 55, 57, 61, 67, 69, 70, 71, 75, 79, 81, 82, 84, 101, 104, 105, 107, 111, 114, 116, 118, 0, 1, 5, 7, 8, 10, 12, 14, 23, 24, 25, 28, 29, 30, 33, 34, 35, 36, 37, 38, 39, 42, 46, 47, 52, 54, 58, 59, 61, 65, 66, 70, 74, 76, 77, 78, 83, 85, 94, 96, 103, 109, 111, 115, 0, 1, 6, 10, 11, 15, 19, 20, 21, 23, 24, 29, 33, 36, 37, 40, 47, 48, 54, 56, 57, 60, 61, 64, 65, 66, 68, 69, 72, 75, 77, 78, 82, 87, 88, 89, 90, 91, 92, 94, 96, 97, 101, 102, 106, 111, 112, 113, 115, 117, 0, 1, 5, 7, 8, 12, 17, 18, 20, 22, 25, 30, 31, 33, 34, 35, 39, 41, 47, 49, 50, 52, 54, 55, 56, 58, 59, 61, 62, 63, 64, 66, 67, 71, 72, 74, 76, 77, 80, 81, 84, 86, 88, 94, 95, 96, 97, 98, 101, 104, 110, 111, 114, 117, 118, 3, 8, 12, 14, 16, 17, 20, 23, 26, 28, 31, 33, 34, 35, 38, 40, 47, 49, 51, 60, 61, 62, 63, 66, 68, 70, 71, 74, 75, 77, 78, 85, 88, 95, 98, 102, 106, 107, 112, 116, 117, 118, 0, 1, 16, 17, 18, 19, 21, 23, 24, 26, 28, 29, 30, 35, 38, 41, 42, 43, 44, 45, 48, 49, 59, 64, 67, 69, 72, 73, 78, 80, 89, 91, 95, 97, 99, 102, 104, 105, 106, 112, 115, 116, 118, 119, 3, 5, 8, 9, 10, 11, 13, 17, 18, 19, 23, 26, 31, 33, 34, 35, 36, 39, 43, 44, 55, 56, 57, 58, 59, 62, 65, 69, 70, 71, 75, 76, 79, 84, 94, 96, 101, 103, 104, 108, 110, 114, 119, 0, 3, 4, 6, 7, 11, 12, 16, 17, 21, 23, 29, 30, 31, 32, 34, 37, 40, 42, 43, 45, 46, 49, 50, 54, 56, 59, 62, 64, 74, 79, 82, 85, 86, 92, 95, 105, 109, 114, 115, 116, 119, 5, 21, 23, 24, 26, 30, 31, 35, 36, 39, 41, 42, 44, 47, 49, 53, 54, 59, 60, 61, 64, 65, 66, 67, 70, 71, 72, 78, 80, 81, 82, 83, 87, 88, 91, 92, 101, 104, 106, 107, 109, 3, 4, 8, 9, 22, 24, 25, 26, 29, 35, 36, 37, 38, 39, 40, 42, 48, 49, 54, 56, 57, 60, 65, 66, 67, 72, 80, 83, 84, 85, 91, 95, 98, 99, 101, 102, 105, 106, 107, 109, 110, 116, 119, 0, 7, 10, 12, 18, 19, 20, 21, 23, 25, 26, 27, 30, 31, 34, 39, 41, 43, 44, 48, 57, 60, 61, 65, 66, 68, 72, 73, 76, 79, 81, 83, 85, 86, 90, 92, 94, 96, 99, 102, 109, 110, 111, 112, 115, 118, 119, 2, 5, 9, 10, 11, 12, 15, 19, 20, 23, 25, 29, 34, 36, 38, 39, 42, 44, 45, 46, 47, 48, 52, 58, 59, 64, 66, 69, 71, 73, 75, 76, 77, 78, 82, 84, 87, 93, 95, 97, 99, 105, 106, 112, 115, 117, 2, 4, 5, 7, 9, 11, 13, 14, 17, 21, 27, 30, 31, 38, 40, 43, 44, 46, 47, 48, 49, 52, 54, 57, 69, 71, 72, 74, 75, 76, 78, 89, 92, 93, 99, 100, 101, 103, 104, 106, 109, 113, 117, 118, 0, 5, 8, 10, 11, 14, 15, 16, 17, 18, 20, 24, 28, 32, 34, 48, 49, 50, 52, 59, 61, 63, 66, 71, 72, 73, 74, 75, 81, 82, 84, 88, 89, 91, 92, 93, 94, 97, 99, 104, 110, 113, 114, 119, 0, 1, 2, 5, 6, 13, 19, 20, 21, 25, 31, 37, 38, 45, 50, 53, 54, 58, 60, 61, 62, 67, 68, 75, 79, 81, 86, 89, 90, 92, 95, 96, 99, 103, 105, 107, 110, 111, 114, 1, 4, 5, 9, 14, 23, 29, 30, 31, 33, 34, 37, 39, 46, 47, 49, 50, 51, 53, 54, 62, 63, 64, 65, 66, 67, 69, 70, 75, 80, 83, 84, 86, 91, 99, 100, 102, 110, 115, 116, 118, 1, 4, 7, 9, 10, 11, 12, 17, 22, 27, 31, 33, 34, 36, 37, 40, 41, 43, 45, 47, 48, 49, 51, 53, 56, 58, 62, 63, 64, 69, 71, 72, 74, 78, 79, 80, 81, 82, 84, 88, 89, 92, 93, 96, 98, 103, 105, 107, 108, 109, 111, 112, 114, 117, 1, 2, 4, 6, 9, 14, 15, 17, 20, 21, 22, 26, 27, 29, 30, 32, 37, 41, 42, 45, 49, 50, 51, 54, 55, 59, 61, 63, 67, 69, 70, 76, 77, 78, 86, 92, 93, 94, 95, 96, 97, 101, 105, 106, 107, 109, 112, 113, 115, 116, 3, 4, 7, 9, 10, 11, 12, 14, 17, 19, 21, 22, 24, 28, 29, 32, 33, 38, 41, 44, 46, 47, 48, 49, 50, 54, 58, 60, 61, 62, 63, 65, 66, 68, 73, 74, 81, 84, 85, 86, 90, 93, 94, 98, 104, 109, 110, 111, 112, 113, 114, 116, 1, 3, 4, 6, 9, 10, 14, 24, 27, 28, 31, 35, 38, 41, 42, 44, 45, 47, 49, 56, 60, 67, 72, 76, 82, 87, 90, 92, 93, 97, 99, 101, 106, 108, 109, 110, 111, 116, 5, 6, 9, 11, 12, 13, 17, 18, 20, 21, 24, 26, 27, 29, 30, 37, 38, 39, 40, 46, 48, 52, 55, 59, 60, 64, 66, 69, 71, 75, 77, 78, 81, 82, 83, 84, 85, 87, 88, 92, 99, 105, 106, 107, 109, 111, 112, 113, 114, 117, 118, 0, 3, 4, 5, 9, 10, 14, 15, 16, 17, 19, 20, 23, 24, 29, 31, 32, 34, 36, 38, 44, 46, 48, 50, 51, 53, 55, 57, 59, 63, 66, 67, 69, 71, 72, 75, 76, 77, 78, 80, 81, 82, 88, 93, 96, 98, 100, 101, 103, 108, 109, 112, 113, 115, 118, 2, 8, 10, 13, 16, 19, 20, 21, 23, 25, 26, 31, 33, 34, 35, 39, 40, 42, 43, 46, 53, 54, 57, 64, 67, 68, 72, 73, 74, 78, 81, 82, 88, 91, 94, 95, 96, 101, 105, 107, 109, 110, 111, 115, 117, 0, 2, 3, 6, 10, 11, 12, 14, 16, 18, 19, 21, 26, 28, 35, 45, 49, 50, 51, 56, 60, 62, 65, 66, 67, 68, 69, 70, 71, 73, 77, 78, 80, 83, 85, 91, 94, 96, 99, 101, 102, 104, 105, 106, 118, 1, 4, 5, 6, 11, 13, 16, 18, 19, 20, 27, 28, 44, 45, 47, 48, 50, 51, 56, 57, 61, 65, 68, 71, 72, 76, 79, 81, 83, 84, 92, 94, 95, 96, 99, 101, 108, 109, 111, 112, 114, 116, 119, 2, 4, 5, 7, 14, 15, 16, 19, 24, 25, 29, 37, 40, 43, 46, 48, 49, 51, 54, 56, 57, 59, 62, 65, 66, 69, 70, 71, 74, 76, 78, 80, 81, 82, 84, 86, 90, 91, 96, 98, 102, 103, 106, 112, 114, 115, 117, 118, 119, 1, 2, 4, 8, 10, 16, 17, 19, 23, 24, 25, 26, 27, 34, 36, 45, 47, 50, 51, 55, 58, 69, 70, 73, 76, 81, 82, 84, 85, 89, 90, 93, 99, 106, 108, 109, 113, 115, 119, 0, 6, 9, 10, 14, 15, 16, 21, 24, 27, 35, 36, 39, 43, 44, 47, 48, 54, 56, 57, 64, 66, 68, 76, 78, 79, 81, 82, 86, 89, 91, 93, 94, 96, 97, 98, 101, 102, 103, 104, 105, 107, 112, 113, 114, 115, 117, 2, 5, 7, 10, 12, 13, 15, 17, 18, 22, 24, 28, 29, 34, 37, 40, 44, 45, 46, 48, 50, 56, 57, 61, 66, 75, 77, 81, 82, 84, 87, 89, 90, 98, 101, 103, 106, 107, 110, 111, 113, 117, 2, 3, 6, 7, 12, 13, 16, 17, 18, 20, 22, 32, 40, 48, 49, 53, 54, 61, 63, 66, 67, 68, 70, 74, 80, 82, 83, 84, 85, 88, 91, 95, 96, 99, 100, 101, 113, 114, 8, 9, 11, 13, 16, 17, 24, 26, 27, 32, 34, 35, 36, 38, 39, 41, 42, 44, 45, 46, 48, 49, 51, 53, 54, 55, 56, 57, 58, 60, 61, 62, 64, 65, 68, 72, 79, 80, 83, 94, 97, 98, 102, 103, 108, 109, 111, 119, 0, 1, 3, 5, 7, 8, 10, 12, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 33, 34, 35, 37, 43, 45, 49, 53, 54, 55, 59, 61, 62, 64, 68, 71, 72, 79, 80, 82, 90, 93, 94, 99, 101, 102, 104, 105, 108, 110, 114, 115, 4, 6, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 22, 25, 28, 30, 31, 34, 37, 39, 41, 43, 45, 51, 53, 54, 55, 58, 59, 61, 71, 72, 73, 75, 79, 81, 89, 90, 91, 92, 94, 100, 102, 109, 117, 119, 0, 1, 2, 3, 5, 8, 11, 12, 20, 23, 24, 26, 33, 35, 44, 47, 48, 49, 53, 55, 56, 57, 59, 62, 68, 72, 73, 76, 78, 79, 87, 93, 95, 96, 102, 104, 110, 114, 115, 117, 118, 0, 1, 6, 7, 12, 18, 19, 21, 31, 34, 37, 39, 44, 46, 48, 50, 52, 54, 55, 56, 63, 64, 67, 68, 71, 74, 79, 83, 87, 88, 90, 93, 94, 95, 96, 97, 101, 103, 104, 110, 111, 112, 113, 116, 118, 119, 0, 6, 8, 10, 11, 13, 14, 16, 19, 20, 23, 25, 26, 27, 28, 32, 33, 34, 36, 37, 38, 40, 44, 45, 46, 47, 49, 51, 52, 53, 54, 55, 64, 65, 75, 80, 82, 83, 84, 92, 96, 98, 101, 102, 103, 104, 105, 106, 111, 112, 118, 119, 1, 2, 4, 5, 7, 12, 14, 15, 19, 23, 27, 29, 30, 31, 32, 34, 37, 38, 39, 40, 44, 45, 46, 48, 51, 55, 57, 58, 60, 61, 65, 66, 69, 70, 74, 75, 78, 79, 82, 91, 93, 97, 99, 100, 101, 103, 104, 105, 106, 107, 108, 111, 113, 115, 117, 119, 0, 3, 8, 10, 11, 13, 15, 17, 18, 20, 21, 25, 26, 27, 28, 29, 30, 33, 35, 36, 39, 41, 43, 44, 47, 50, 54, 55, 59, 60, 63, 64, 66, 67, 68, 69, 73, 74, 75, 79, 81, 82, 84, 85, 89, 90, 91, 92, 93, 94, 95, 98, 101, 102, 103, 104, 105, 106, 107, 109, 110, 111, 116, 119, 3, 5, 9, 11, 12, 14, 22, 23, 24, 25, 29, 31, 32, 35, 37, 46, 54, 57, 61, 62, 63, 65, 66, 68, 70, 72, 73, 75, 76, 77, 79, 84, 85, 86, 88, 89, 92, 93, 96, 98, 104, 105, 107, 109, 114, 115, 118, 2, 4, 13, 14, 15, 16, 17, 18, 21, 23, 28, 32, 36, 37, 39, 42, 43, 47, 48, 55, 56, 67, 71, 72, 76, 78, 79, 82, 87, 89, 94, 95, 96, 99, 101, 106, 107, 109, 110, 112, 113, 118, 119, 2, 4, 5, 9, 11, 12, 13, 14, 15, 16, 18, 19, 20, 24, 26, 28, 30, 39, 40, 41, 43, 46, 50, 52, 55, 56, 58, 59, 60, 64, 67, 69, 71, 73, 77, 82, 83, 84, 86, 91, 101, 104, 105, 106, 110, 112, 113, 118, 119, 4, 8, 9, 10, 12, 17, 18, 21, 23, 25, 28, 29, 32, 34, 36, 37, 40, 50, 54, 56, 60, 62, 63, 64, 65, 70, 71, 72, 73, 75, 77, 82, 83, 88, 90, 94, 95, 98, 100, 105, 108, 115, 117, 0, 1, 2, 5, 7, 9, 10, 13, 14, 16, 21, 23, 24, 27, 33, 34, 35, 36, 38, 39, 42, 43, 47, 57, 59, 62, 64, 66, 67, 70, 72, 73, 74, 77, 78, 79, 80, 82, 83, 85, 87, 94, 95, 97, 98, 103, 104, 106, 112, 113, 115, 117, 118, 119, 6, 13, 14, 20, 21, 26, 29, 31, 32, 35, 38, 41, 43, 44, 48, 52, 58, 59, 60, 61, 62, 63, 64, 65, 68, 69, 70, 74, 81, 83, 84, 86, 91, 92, 93, 94, 96, 99, 102, 103, 106, 108, 111, 113, 118, 7, 8, 9, 10, 11, 13, 14, 16, 17, 18, 21, 24, 26, 28, 30, 34, 35, 40, 46, 47, 48, 49, 51, 52, 60, 61, 62, 63, 64, 66, 67, 68, 70, 74, 76, 77, 82, 83, 84, 86, 87, 88, 89, 90, 92, 94, 97, 99, 115, 116, 117, 0, 1, 2, 4, 10, 11, 13, 18, 21, 22, 23, 25, 27, 35, 40, 46, 47, 49, 52, 57, 59, 62, 66, 70, 71, 77, 78, 82, 87, 93, 96, 100, 103, 110, 111, 114, 115, 119, 0, 3, 7, 8, 10, 12, 15, 16, 18, 20, 21, 22, 24, 27, 28, 30, 34, 35, 36, 38, 41, 44, 45, 46, 47, 48, 50, 51, 53, 60, 61, 62, 65, 66, 68, 69, 70, 71, 72, 73, 76, 77, 78, 84, 85, 87, 89, 94, 95, 97, 99, 100, 103, 105, 106, 107, 108, 115, 118, 2, 8, 14, 16, 17, 18, 20, 21, 22, 23, 25, 29, 30, 33, 34, 40, 42, 44, 52, 55, 56, 58, 63, 64, 66, 67, 70, 74, 81, 84, 87, 88, 100, 101, 105, 106, 111, 112, 115, 116, 117, 118, 119, 0, 6, 7, 8, 9, 10, 11, 13, 17, 18, 20, 21, 26, 27, 28, 29, 33, 37, 39, 42, 43, 44, 46, 49, 53, 55, 57, 58, 60, 61, 62, 68, 69, 74, 75, 76, 79, 81, 82, 85, 87, 88, 89, 91, 93, 94, 96, 100, 102, 104, 106, 108, 110, 112, 115, 117, 118, 2, 7, 8, 12, 13, 15, 16, 18, 20, 21, 24, 25, 27, 29, 32, 34, 35, 37, 40, 42, 44, 45, 47, 48, 50, 55, 57, 58, 61, 62, 63, 66, 68, 75, 76, 79, 81, 82, 85, 88, 89, 90, 93, 96, 97, 98, 100, 102, 103, 104, 108, 109, 110, 113, 114, 118, 119, 3, 5, 6, 9, 10, 13, 14, 18, 25, 31, 36, 37, 40, 41, 42, 49, 51, 55, 60, 63, 64, 66, 70, 71, 72, 73, 75, 76, 77, 79, 80, 81, 83, 85, 86, 88, 90, 94, 97, 105, 107, 108, 117, 118, 1, 2, 4, 5, 8, 9, 13, 14, 17, 23, 25, 26, 29, 32, 36, 40, 42, 44, 45, 48, 53, 57, 60, 61, 63, 64, 71, 72, 73, 75, 76, 78, 80, 81, 87, 88, 89, 91, 95, 96, 97, 98, 99, 102, 103, 106, 111, 119, 0, 11, 13, 18, 19, 21, 26, 32, 34, 35, 44, 49, 52, 55, 56, 57, 58, 62, 64, 66, 67, 75, 76, 78, 79, 81, 82, 85, 87, 89, 90, 95, 96, 97, 101, 102, 103, 104, 107, 110, 111, 113, 3, 4, 8, 10, 13, 15, 20, 21, 22, 23, 24, 28, 32, 33, 34, 40, 41, 42, 43, 44, 47, 49, 50, 53, 54, 55, 56, 57, 58, 59, 62, 65, 66, 67, 69, 70, 73, 74, 75, 76, 78, 79, 82, 83, 85, 87, 91, 92, 93, 94, 96, 97, 99, 110, 111, 112, 115, 117, 119, 1, 4, 5, 6, 7, 10, 13, 14, 15, 17, 20, 21, 22, 25, 26, 28, 29, 30, 32, 34, 36, 37, 42, 46, 49, 50, 51, 57, 58, 61, 62, 64, 65, 71, 73, 74, 78, 81, 82, 87, 89, 94, 96, 97, 99, 101, 104, 107, 108, 112, 115, 0, 1, 5, 6, 12, 13, 18, 21, 22, 23, 26, 30, 38, 39, 45, 46, 47, 48, 49, 53, 59, 61, 67, 68, 70, 71, 72, 73, 74, 77, 80, 85, 86, 87, 88, 94, 95, 97, 99, 101, 105, 106, 110, 113, 116, 117, 118, 119, 0, 1, 7, 10, 14, 17, 21, 22, 23, 25, 27, 35, 36, 40, 43, 46, 47, 48, 49, 50, 52, 56, 58, 60, 63, 67, 68, 71, 72, 75, 76, 78, 79, 83, 85, 86, 91, 92, 93, 94, 95, 96, 101, 103, 108, 111, 113, 119, 1, 2, 6, 7, 9, 11, 13, 15, 18, 20, 21, 22, 25, 29, 34, 35, 38, 43, 44, 46, 48, 54, 55, 56, 61, 62, 64, 66, 67, 68, 73, 74, 75, 77, 82, 90, 91, 93, 103, 104, 105, 109, 110, 116, 117, 118, 119, 4, 8, 10, 11, 14, 15, 23, 24, 25, 27, 28, 29, 35, 36, 38, 39, 47, 50, 51, 54, 58, 60, 61, 62, 64, 68, 71, 78, 82, 84, 89, 90, 91, 95, 96, 99, 101, 102, 105, 109, 110, 111, 113, 117, 118, 0, 1, 2, 5, 6, 11, 12, 13, 17, 22, 26, 27, 30, 34, 36, 37, 38, 44, 45, 46, 51, 52, 53, 54, 59, 62, 63, 66, 74, 77, 87, 93, 97, 100, 101, 102, 103, 106, 107, 109, 111, 113, 2, 5, 7, 11, 12, 14, 17, 21, 22, 23, 24, 25, 26, 27, 29, 31, 33, 37, 39, 40, 44, 45, 46, 52, 55, 56, 57, 58, 60, 61, 62, 64, 66, 67, 70, 73, 75, 76, 77, 79, 84, 86, 87, 88, 90, 91, 93, 94, 95, 98, 100, 102, 103, 105, 110, 113, 119, 1, 3, 4, 5, 6, 7, 8, 12, 13, 15, 16, 21, 22, 27, 30, 32, 35, 36, 38, 40, 42, 49, 52, 53, 54, 55, 56, 63, 65, 67, 68, 69, 71, 76, 77, 79, 80, 88, 89, 95, 97, 103, 104, 105, 107, 112, 116, 118, 0, 2, 3, 4, 6, 12, 15, 19, 21, 24, 25, 27, 29, 30, 31, 34, 35, 37, 39, 41, 44, 49, 50, 56, 57, 59, 61, 63, 64, 65, 68, 72, 76, 81, 83, 87, 89, 90, 93, 97, 99, 103, 104, 105, 108, 111, 112, 113, 0, 3, 7, 11, 14, 15, 17, 18, 19, 21, 22, 23, 29, 31, 34, 36, 38, 39, 40, 43, 44, 45, 47, 48, 49, 50, 51, 54, 55, 57, 58, 67, 69, 70, 71, 72, 74, 75, 78, 83, 86, 87, 88, 92, 93, 100, 102, 107, 110, 112, 113, 118, 119, 0, 1, 2, 4, 5, 7, 8, 12, 15, 18, 23, 30, 31, 33, 34, 35, 39, 43, 47, 51, 53, 54, 57, 60, 63, 67, 69, 71, 73, 74, 75, 76, 80, 82, 83, 86, 87, 93, 95, 98, 99, 102, 104, 107, 109, 115, 116, 0, 2, 5, 6, 10, 11, 13, 14, 15, 16, 17, 19, 23, 24, 25, 28, 31, 37, 38, 39, 41, 43, 44, 47, 48, 49, 57, 63, 64, 73, 75, 77, 79, 80, 87, 91, 94, 95, 97, 99, 102, 103, 104, 105, 106, 110, 112, 113, 116, 119, 0, 2, 3, 6, 9, 10, 11, 13, 16, 18, 20, 22, 25, 29, 30, 35, 36, 37, 40, 41, 42, 43, 47, 48, 52, 53, 57, 58, 59, 61, 64, 71, 78, 80, 81, 83, 85, 88, 90, 92, 93, 95, 102, 103, 104, 106, 109, 113, 114, 115, 116, 117, 0, 4, 5, 8, 9, 12, 15, 17, 20, 22, 25, 27, 31, 32, 34, 36, 37, 39, 43, 45, 46, 49, 55, 57, 58, 60, 63, 66, 69, 72, 78, 80, 91, 96, 102, 109, 112, 114, 116, 117, 1, 2, 3, 10, 13, 18, 21, 22, 24, 27, 30, 31, 34, 36, 37, 38, 39, 40, 42, 49, 53, 58, 59, 60, 64, 65, 73, 74, 76, 78, 83, 87, 88, 92, 95, 96, 97, 99, 100, 103, 106, 108, 109, 111, 117, 119, 2, 4, 6, 7, 10, 11, 15, 17, 18, 21, 23, 24, 25, 35, 36, 38, 40, 43, 49, 54, 56, 59, 61, 64, 65, 67, 72, 73, 78, 82, 86, 87, 89, 93, 99, 100, 101, 108, 110, 111, 113, 114, 116, 117, 118, 119, 0, 1, 5, 9, 10, 12, 14, 23, 25, 26, 29, 32, 34, 36, 39, 48, 49, 50, 51, 53, 55, 56, 57, 63, 70, 74, 77, 79, 84, 87, 88, 90, 95, 96, 98, 99, 111, 114, 115, 116, 117, 0, 2, 3, 5, 14, 15, 18, 19, 20, 27, 28, 32, 33, 34, 41, 44, 45, 46, 47, 49, 52, 54, 55, 58, 59, 63, 64, 66, 69, 71, 72, 73, 75, 79, 81, 83, 84, 85, 86, 87, 88, 90, 92, 93, 95, 97, 99, 102, 104, 110, 113, 118, 1, 3, 5, 13, 14, 16, 18, 19, 22, 23, 25, 29, 30, 32, 33, 36, 40, 41, 44, 46, 47, 48, 54, 55, 56, 57, 58, 60, 65, 69, 73, 77, 82, 93, 95, 97, 100, 102, 103, 105, 108, 109, 111, 115, 117, 118, 5, 7, 13, 19, 20, 21, 25, 31, 32, 36, 37, 38, 40, 46, 47, 49, 51, 53, 56, 57, 58, 60, 61, 63, 64, 65, 66, 67, 70, 71, 75, 76, 77, 79, 84, 89, 91, 95, 96, 98, 99, 101, 103, 104, 108, 109, 112, 113, 115, 119, 1, 2, 6, 7, 8, 11, 12, 13, 16, 18, 19, 20, 21, 23, 24, 25, 26, 28, 31, 32, 33, 40, 43, 44, 45, 51, 55, 58, 59, 61, 62, 64, 65, 66, 68, 71, 72, 73, 76, 80, 81, 83, 86, 88, 90, 91, 92, 95, 96, 97, 99, 100, 101, 103, 106, 107, 110, 114, 116, 117, 0, 2, 3, 4, 5, 9, 10, 11, 13, 17, 18, 20, 21, 22, 27, 30, 31, 33, 34, 36, 37, 39, 40, 42, 45, 49, 51, 56, 57, 64, 65, 74, 80, 82, 85, 86, 89, 94, 100, 102, 105, 108, 109, 110, 112, 113, 115, 117, 0, 1, 3, 4, 7, 12, 17, 20, 22, 24, 28, 30, 32, 34, 35, 37, 40, 42, 48, 50, 52, 53, 55, 57, 58, 59, 60, 62, 63, 65, 66, 68, 69, 70, 85, 88, 90, 91, 93, 97, 98, 101, 103, 104, 105, 106, 107, 109, 111, 113, 115, 116, 0, 2, 4, 6, 7, 8, 10, 12, 15, 17, 19, 20, 21, 27, 30, 32, 33, 36, 37, 39, 40, 44, 45, 48, 53, 56, 63, 65, 67, 71, 72, 78, 87, 88, 90, 96, 99, 100, 102, 109, 110, 115, 117, 0, 1, 3, 6, 10, 11, 21, 25, 26, 28, 29, 37, 40, 41, 42, 43, 45, 46, 48, 53, 54, 55, 57, 64, 68, 72, 79, 80, 82, 83, 84, 85, 87, 90, 94, 95, 98, 99, 102, 106, 117, 119, 0, 2, 5, 9, 11, 15, 27, 31, 32, 33, 34, 36, 41, 42, 43, 45, 50, 53, 54, 58, 60, 63, 64, 67, 68, 72, 73, 75, 76, 82, 83, 84, 85, 86, 91, 93, 95, 97, 103, 104, 108, 109, 111, 118, 0, 1, 2, 9, 10, 15, 18, 23, 25, 28, 30, 33, 35, 38, 40, 44, 46, 47, 49, 50, 54, 56, 57, 63, 68, 70, 75, 76, 80, 81, 90, 95, 100, 101, 103, 106, 110, 111, 113, 115, 118, 2, 6, 9, 10, 12, 15, 20, 25, 27, 31, 34, 35, 38, 39, 41, 46, 48, 49, 50, 52, 57, 58, 64, 68, 69, 71, 72, 75, 77, 78, 80, 82, 83, 84, 88, 90, 91, 92, 93, 94, 95, 97, 100, 101, 104, 112, 114, 116, 117, 118, 1, 4, 8, 13, 15, 16, 20, 23, 24, 31, 33, 38, 40, 41, 42, 43, 45, 48, 53, 56, 60, 61, 63, 65, 67, 69, 82, 83, 86, 87, 91, 92, 95, 96, 97, 98, 100, 104, 110, 112, 113, 114, 118, 119, 0, 1, 4, 5, 7, 10, 13, 17, 19, 21, 23, 26, 27, 28, 30, 32, 36, 41, 42, 43, 44, 46, 48, 51, 53, 55, 59, 60, 64, 66, 69, 70, 72, 73, 78, 79, 80, 84, 87, 90, 91, 95, 96, 98, 101, 103, 106, 108, 110, 111, 115, 116, 0, 3, 4, 13, 15, 17, 18, 20, 22, 27, 28, 29, 31, 33, 39, 43, 44, 45, 51, 52, 56, 58, 59, 62, 63, 64, 65, 66, 73, 75, 79, 81, 82, 83, 84, 86, 90, 92, 93, 96, 97, 100, 101, 103, 106, 109, 110, 114, 118, 119, 2, 4, 5, 9, 10, 11, 17, 21, 23, 28, 31, 32, 35, 37, 42, 43, 44, 52, 53, 54, 56, 58, 61, 65, 69, 70, 72, 73, 75, 83, 86, 95, 96, 97, 101, 102, 110, 111, 112, 113, 116, 119, 0, 2, 6, 7, 9, 10, 11, 13, 20, 27, 28, 31, 34, 37, 38, 45, 50, 51, 52, 53, 59, 60, 62, 63, 64, 65, 68, 69, 70, 71, 73, 76, 78, 84, 85, 86, 88, 90, 91, 97, 102, 105, 107, 109, 115, 0, 8, 9, 10, 11, 16, 21, 26, 28, 37, 39, 47, 50, 56, 58, 60, 61, 65, 66, 70, 73, 77, 80, 81, 87, 88, 89, 91, 96, 100, 105, 107, 111, 117, 118, 119, 3, 6, 15, 20, 24, 25, 28, 32, 33, 36, 39, 50, 52, 54, 56, 61, 63, 65, 67, 68, 69, 72, 74, 78, 81, 86, 87, 90, 100, 101, 103, 107, 110, 113, 115, 117, 119, 0, 2, 4, 5, 6, 7, 8, 11, 12, 15, 17, 21, 23, 26, 30, 31, 35, 38, 39, 41, 43, 50, 58, 68, 72, 73, 74, 75, 76, 77, 78, 83, 84, 85, 88, 89, 90, 91, 93, 95, 96, 97, 100, 101, 106, 111, 115, 117, 118, 0, 5, 8, 10, 11, 17, 18, 22, 23, 24, 34, 37, 38, 39, 41, 43, 44, 45, 48, 54, 55, 56, 59, 61, 65, 66, 68, 70, 71, 76, 81, 84, 85, 88, 91, 92, 95, 97, 101, 102, 104, 105, 106, 112, 113, 115, 0, 1, 6, 8, 11, 12, 15, 19, 20, 22, 28, 33, 35, 38, 41, 48, 54, 56, 60, 63, 64, 67, 68, 73, 76, 80, 88, 90, 91, 93, 95, 100, 102, 107, 112, 116, 118, 119, 0, 2, 3, 7, 8, 11, 12, 13, 17, 18, 20, 21, 24, 30, 35, 37, 38, 42, 47, 49, 53, 54, 55, 56, 60, 62, 63, 65, 66, 67, 68, 70, 72, 75, 76, 77, 84, 90, 95, 102, 105, 109, 112, 113, 115, 116, 0, 5, 11, 12, 14, 18, 21, 22, 24, 26, 27, 28, 29, 31, 34, 35, 39, 40, 42, 43, 44, 47, 54, 58, 59, 61, 62, 63, 65, 66, 67, 69, 70, 73, 75, 76, 77, 78, 79, 89, 91, 92, 95, 96, 97, 107, 109, 111, 113, 114, 116, 0, 1, 3, 5, 7, 9, 12, 13, 14, 16, 17, 19, 24, 25, 26, 31, 35, 36, 40, 43, 44, 45, 50, 54, 55, 56, 57, 62, 63, 64, 67, 71, 72, 75, 76, 78, 80, 83, 86, 87, 96, 98, 99, 100, 103, 104, 108, 109, 113, 119, 1, 3, 5, 6, 9, 12, 14, 15, 19, 21, 27, 30, 33, 34, 35, 39, 40, 41, 43, 44, 46, 47, 49, 51, 54, 55, 56, 59, 61, 65, 67, 71, 75, 78, 84, 86, 88, 90, 93, 94, 95, 96, 97, 107, 108, 110, 111, 112, 113, 114, 115, 117, 3, 8, 9, 12, 14, 18, 19, 20, 22, 27, 28, 32, 33, 34, 35, 39, 43, 47, 48, 49, 50, 51, 53, 55, 56, 61, 62, 63, 68, 73, 76, 77, 78, 79, 83, 84, 85, 86, 88, 92, 94, 95, 98, 103, 106, 110, 111, 119, 0, 1, 2, 8, 11, 13, 14, 16, 17, 18, 19, 20, 21, 25, 28, 31, 33, 35, 38, 43, 44, 46, 49, 50, 51, 54, 57, 58, 60, 62, 64, 70, 71, 73, 74, 75, 76, 78, 82, 83, 89, 90, 91, 100, 101, 102, 105, 106, 108, 110, 111, 114, 115, 116, 119, 0, 2, 5, 9, 15, 16, 17, 21, 23, 26, 32, 35, 36, 43, 46, 47, 54, 56, 57, 64, 72, 76, 78, 81, 86, 87, 88, 98, 102, 106, 108, 109, 112, 118, 4, 10, 11, 12, 13, 15, 24, 26, 31, 35, 37, 38, 39, 44, 46, 49, 50, 52, 54, 60, 63, 64, 69, 70, 72, 76, 77, 81, 84, 88, 89, 91, 101, 104, 107, 108, 109, 112, 115, 117, 118, 3, 8, 9, 10, 11, 12, 13, 15, 16, 18, 21, 24, 28, 30, 31, 32, 33, 39, 40, 42, 47, 49, 52, 55, 57, 58, 63, 65, 69, 70, 71, 74, 80, 83, 85, 86, 87, 89, 90, 91, 93, 99, 100, 101, 102, 104, 116, 118, 119, 3, 5, 10, 11, 13, 14, 20, 21, 24, 26, 31, 36, 38, 44, 45, 46, 47, 50, 52, 54, 55, 57, 65, 66, 67, 69, 70, 72, 74, 77, 80, 86, 90, 91, 93, 94, 96, 100, 101, 103, 106, 112, 1, 3, 8, 10, 12, 15, 17, 20, 21, 24, 29, 32, 33, 34, 35, 38, 44, 45, 49, 50, 55, 56, 58, 60, 64, 70, 72, 74, 76, 78, 79, 81, 85, 87, 88, 91, 92, 96, 98, 101, 104, 105, 107, 108, 109, 110, 111, 112, 113, 116, 117, 118, 3, 4, 7, 12, 15, 17, 20, 21, 22, 31, 32, 33, 35, 37, 41, 42, 44, 50, 55, 62, 68, 71, 74, 75, 76, 83, 84, 86, 88, 89, 92, 93, 97, 99, 105, 110, 111, 113, 0, 1, 8, 9, 12, 13, 16, 17, 18, 22, 23, 26, 27, 29, 30, 33, 36, 37, 41, 42, 46, 52, 53, 54, 55, 56, 57, 58, 67, 68, 70, 71, 77, 79, 81, 84, 87, 90, 91, 93, 95, 96, 98, 101, 105, 108, 113, 115, 116, 117, 0, 1, 3, 8, 12, 15, 16, 18, 20, 21, 23, 24, 26, 27, 29, 33, 34, 37, 40, 41, 47, 49, 53, 55, 58, 59, 63, 65, 66, 68, 70, 72, 74, 82, 83, 87, 88, 90, 91, 95, 110, 113, 114, 115, 118, 0, 2, 16, 26, 29, 32, 33, 36, 38, 39, 42, 43, 45, 48, 49, 53, 54, 55, 59, 62, 66, 69, 70, 74, 75, 77, 79, 81, 85, 86, 89, 90, 93, 95, 98, 102, 104, 110, 111, 115, 116, 117, 118, 1, 4, 5, 6, 7, 9, 10, 14, 18, 24, 25, 27, 29, 30, 31, 32, 33, 37, 43, 44, 45, 47, 55, 59, 60, 61, 64, 66, 67, 70, 72, 79, 81, 82, 83, 85, 86, 87, 88, 89, 94, 96, 97, 99, 100, 103, 104, 106, 108, 109, 111, 116, 117, 1, 2, 3, 5, 10, 11, 15, 16, 19, 25, 26, 28, 30, 37, 38, 42, 43, 48, 49, 51, 53, 59, 60, 63, 70, 71, 73, 82, 85, 86, 90, 92, 94, 95, 96, 98, 104, 106, 109, 115, 117, 118, 0, 2, 6, 7, 8, 9, 11, 13, 16, 18, 19, 20, 22, 26, 28, 29, 31, 33, 36, 38, 50, 52, 55, 56, 57, 58, 59, 62, 63, 66, 67, 68, 69, 71, 73, 75, 76, 77, 80, 82, 83, 93, 95, 106, 107, 111, 112, 113, 117, 119, 1, 4, 7, 8, 10, 14, 15, 19, 22, 24, 26, 30, 31, 38, 39, 45, 46, 50, 53, 54, 57, 58, 59, 62, 65, 67, 68, 69, 71, 76, 77, 78, 79, 80, 81, 86, 87, 88, 92, 94, 95, 106, 107, 108, 109, 110, 112, 113, 116, 118, 2, 3, 4, 7, 8, 9, 11, 15, 18, 20, 21, 23, 26, 27, 29, 30, 32, 34, 39, 40, 43, 49, 52, 53, 54, 55, 59, 62, 63, 68, 73, 76, 77, 81, 83, 84, 85, 90, 91, 93, 96, 99, 100, 101, 102, 106, 115, 117, 118, 1, 4, 6, 7, 8, 10, 11, 12, 17, 18, 19, 21, 22, 23, 29, 31, 32, 46, 50, 52, 54, 55, 61, 66, 72, 74, 75, 79, 82, 83, 85, 86, 87, 94, 95, 96, 102, 103, 107, 109, 113, 116, 118, 119, 1, 2, 3, 5, 6, 8, 9, 13, 15, 23, 26, 28, 30, 36, 40, 41, 43, 44, 46, 47, 48, 49, 50, 52, 53, 55, 56, 65, 67, 72, 73, 74, 76, 77, 80, 81, 83, 88, 92, 94, 95, 96, 97, 99, 100, 101, 102, 103, 107, 108, 109, 115, 116, 119, 1, 2, 3, 10, 13, 16, 24, 26, 29, 30, 33, 35, 38, 40, 45, 47, 49, 50, 54, 57, 60, 61, 64, 72, 73, 74, 75, 80, 81, 83, 86, 93, 95, 96, 99, 102, 103, 108, 111, 1, 2, 3, 5, 9, 10, 11, 13, 15, 16, 20, 21, 22, 25, 26, 27, 28, 30, 35, 39, 40, 41, 42, 50, 52, 54, 57, 58, 60, 61, 62, 63, 66, 68, 69, 70, 80, 81, 84, 88, 89, 90, 97, 99, 100, 102, 106, 107, 108, 109, 111, 113, 115, 116, 119, 0, 2, 6, 13, 14, 15, 16, 17, 19, 23, 24, 25, 28, 33, 34, 37, 40, 41, 46, 48, 49, 51, 52, 55, 56, 63, 64, 65, 66, 68, 69, 71, 72, 81, 83, 85, 86, 94, 97, 99, 106, 109, 111, 116, 117, 119, 1, 2, 5, 6, 9, 12, 13, 16, 20, 24, 30, 31, 32, 33, 36, 39, 44, 46, 47, 49, 55, 57, 63, 64, 68, 69, 70, 74, 75, 77, 80, 84, 86, 88, 90, 93, 96, 97, 98, 99, 102, 104, 105, 106, 107, 108, 109, 115, 1, 3, 5, 13, 14, 16, 19, 21, 24, 25, 26, 27, 30, 31, 34, 38, 39, 43, 44, 46, 47, 48, 53, 54, 56, 59, 60, 63, 64, 66, 68, 69, 74, 77, 79, 81, 87, 89, 90, 91, 93, 95, 103, 106, 108, 109, 113, 114, 116, 7, 8, 9, 11, 19, 20, 21, 22, 23, 25, 26, 27, 28, 30, 32, 34, 35, 39, 42, 43, 44, 45, 46, 47, 50, 53, 55, 59, 68, 69, 77, 80, 83, 85, 90, 96, 97, 99, 100, 106, 107, 108, 110, 111, 112, 113, 119, 1, 2, 6, 7, 9, 12, 13, 14, 20, 23, 24, 25, 29, 31, 34, 35, 38, 39, 46, 49, 52, 53, 54, 57, 60, 62, 63, 68, 71, 73, 78, 79, 80, 86, 90, 93, 95, 97, 100, 102, 103, 104, 106, 107, 109, 110, 116, 4, 5, 11, 13, 17, 18, 19, 21, 24, 34, 40, 41, 43, 44, 47, 48, 51, 52, 55, 56, 57, 58, 64, 66, 70, 71, 72, 78, 80, 82, 83, 84, 86, 90, 92, 94, 95, 96, 103, 106, 107, 110, 112, 114, 115, 118, 0, 13, 16, 17, 18, 19, 20, 22, 23, 27, 28, 33, 34, 35, 39, 43, 45, 46, 48, 50, 56, 57, 61, 63, 64, 66, 75, 76, 79, 81, 84, 85, 86, 87, 89, 90, 101, 102, 104, 105, 106, 107, 109, 111, 114, 1, 4, 6, 7, 8, 10, 11, 12, 17, 18, 19, 23, 24, 25, 28, 29, 30, 32, 35, 41, 51, 53, 58, 61, 64, 65, 69, 71, 72, 73, 76, 80, 81, 83, 87, 90, 91, 100, 101, 102, 104, 105, 107, 111, 112, 117, 5, 6, 15, 16, 18, 23, 26, 28, 29, 31, 33, 35, 44, 47, 49, 51, 53, 54, 56, 59, 62, 63, 64, 65, 67, 68, 72, 73, 75, 77, 78, 79, 81, 92, 93, 94, 95, 103, 107, 108, 110, 111, 114, 118, 2, 3, 4, 5, 6, 7, 8, 11, 13, 15, 20, 26, 31, 34, 42, 44, 47, 48, 50, 53, 54, 55, 56, 58, 64, 65, 68, 73, 74, 79, 81, 84, 87, 95, 98, 103, 104, 105, 106, 107, 109, 110, 112, 114, 115, 116, 3, 5, 7, 9, 11, 12, 13, 17, 18, 24, 27, 34, 37, 38, 41, 49, 52, 54, 57, 58, 59, 62, 63, 66, 68, 70, 73, 76, 78, 86, 89, 95, 103, 106, 115, 116, 119, 5, 7, 10, 11, 14, 15, 18, 20, 26, 29, 31, 32, 35, 38, 39, 40, 41, 48, 49, 50, 55, 57, 61, 62, 63, 64, 65, 66, 69, 72, 74, 75, 76, 77, 78, 80, 84, 93, 102, 104, 108, 110, 111, 113, 118, 0, 3, 8, 9, 13, 18, 19, 20, 25, 47, 48, 49, 53, 58, 59, 60, 61, 63, 64, 65, 68, 70, 72, 75, 77, 79, 84, 87, 92, 93, 96, 98, 100, 103, 106, 113, 117, 119, 0, 1, 2, 3, 7, 10, 13, 17, 19, 22, 24, 26, 27, 30, 32, 37, 42, 45, 46, 48, 59, 62, 63, 65, 67, 71, 72, 75, 77, 80, 86, 88, 89, 91, 92, 94, 96, 100, 101, 102, 103, 105, 106, 107, 110, 111, 114, 115, 118, 119, 2, 3, 4, 5, 13, 15, 21, 24, 25, 26, 28, 29, 31, 32, 37, 38, 40, 48, 53, 54, 56, 58, 71, 72, 73, 74, 76, 78, 79, 80, 84, 91, 92, 93, 94, 96, 98, 99, 103, 104, 107, 110, 116, 117, 118, 2, 4, 6, 9, 14, 17, 18, 30, 32, 33, 38, 42, 50, 54, 56, 59, 61, 65, 67, 70, 71, 75, 76, 78, 84, 87, 88, 92, 93, 96, 97, 98, 101, 103, 107, 110, 113, 114, 119, 1, 2, 3, 4, 8, 9, 13, 20, 26, 28, 32, 39, 40, 41, 43, 44, 49, 50, 55, 58, 63, 64, 66, 78, 79, 83, 86, 89, 91, 92, 95, 102, 104, 107, 108, 111, 112, 118, 7, 9, 10, 14, 18, 21, 23, 24, 25, 26, 27, 31, 37, 40, 41, 43, 45, 52, 54, 57, 61, 66, 70, 73, 75, 76, 78, 79, 82, 88, 90, 96, 98, 99, 100, 102, 105, 109, 111, 115, 116, 117, 119, 0, 3, 5, 6, 9, 12, 15, 18, 20, 23, 27, 29, 33, 38, 39, 42, 43, 46, 48, 50, 53, 54, 56, 60, 61, 62, 67, 70, 73, 77, 82, 85, 87, 89, 91, 92, 94, 97, 98, 103, 104, 105, 108, 112, 113, 117, 2, 7, 10, 11, 16, 18, 23, 27, 34, 36, 37, 40, 41, 45, 49, 51, 53, 60, 63, 64, 68, 70, 71, 74, 75, 77, 78, 80, 82, 83, 89, 92, 94, 95, 99, 100, 103, 108, 109, 110, 112, 113, 0, 1, 3, 6, 8, 10, 14, 15, 16, 17, 21, 24, 25, 26, 33, 35, 36, 40, 41, 46, 54, 56, 57, 58, 59, 60, 62, 68, 69, 70, 74, 76, 78, 79, 82, 83, 86, 87, 88, 91, 93, 94, 96, 100, 104, 106, 107, 110, 113, 118, 119, 0, 4, 5, 6, 9, 10, 11, 16, 17, 19, 21, 23, 27, 30, 33, 34, 36, 38, 40, 42, 46, 49, 50, 54, 56, 58, 61, 62, 63, 64, 65, 66, 67, 69, 70, 73, 77, 78, 79, 81, 84, 87, 88, 90, 91, 97, 99, 100, 105, 112, 115, 119, 5, 7, 9, 10, 13, 18, 19, 23, 26, 28, 32, 33, 36, 38, 47, 51, 53, 57, 61, 62, 63, 66, 67, 71, 73, 75, 76, 77, 82, 83, 85, 87, 88, 91, 94, 95, 99, 102, 104, 107, 108, 109, 111, 112, 113, 0, 2, 4, 5, 6, 8, 9, 11, 16, 19, 21, 22, 26, 28, 29, 32, 33, 35, 36, 38, 40, 42, 44, 45, 46, 52, 56, 58, 61, 66, 71, 72, 73, 74, 78, 79, 82, 83, 84, 85, 89, 92, 93, 94, 95, 97, 98, 99, 100, 103, 105, 108, 109, 112, 114, 116, 118, 5, 6, 8, 12, 14, 22, 23, 25, 27, 29, 31, 32, 36, 37, 38, 39, 42, 44, 45, 46, 48, 50, 53, 55, 60, 68, 72, 73, 74, 75, 78, 81, 84, 86, 88, 91, 94, 96, 101, 103, 104, 105, 106, 107, 109, 114, 115, 116, 4, 7, 9, 13, 15, 18, 24, 28, 32, 34, 36, 38, 42, 45, 48, 53, 56, 58, 59, 63, 67, 69, 72, 73, 75, 77, 78, 80, 81, 82, 84, 89, 92, 94, 96, 100, 101, 102, 104, 105, 106, 110, 111, 113, 116, 118, 1, 2, 3, 8, 12, 15, 18, 19, 20, 22, 24, 25, 26, 28, 32, 36, 37, 40, 41, 43, 44, 52, 54, 55, 56, 57, 61, 62, 68, 69, 72, 74, 76, 77, 78, 79, 83, 85, 86, 89, 92, 98, 105, 108, 112, 113, 114, 115, 117, 0, 1, 2, 4, 5, 13, 14, 16, 23, 24, 25, 27, 28, 33, 35, 36, 37, 40, 41, 44, 46, 47, 48, 50, 52, 54, 56, 57, 59, 60, 61, 64, 68, 69, 72, 79, 80, 87, 90, 91, 98, 102, 111, 114, 115, 4, 6, 7, 8, 11, 14, 15, 16, 17, 18, 19, 22, 23, 26, 29, 30, 32, 36, 37, 39, 44, 45, 46, 47, 48, 51, 56, 61, 63, 65, 68, 71, 72, 73, 76, 77, 78, 81, 82, 86, 88, 91, 92, 95, 98, 99, 101, 105, 106, 107, 112, 116, 117, 119, 0, 3, 4, 6, 12, 13, 14, 18, 19, 24, 28, 30, 38, 40, 41, 43, 46, 50, 52, 53, 55, 58, 60, 61, 62, 63, 64, 65, 67, 70, 73, 81, 85, 86, 87, 88, 91, 93, 97, 101, 103, 104, 106, 109, 113, 114, 118, 119, 3, 4, 6, 10, 12, 13, 14, 15, 18, 20, 25, 28, 33, 35, 36, 37, 38, 39, 41, 42, 43, 44, 45, 47, 48, 49, 51, 53, 55, 58, 60, 62, 64, 66, 67, 69, 75, 82, 93, 105, 108, 114, 118, 0, 4, 14, 15, 17, 18, 23, 25, 27, 31, 32, 35, 36, 38, 39, 40, 43, 44, 46, 47, 51, 52, 53, 59, 61, 64, 65, 66, 71, 74, 82, 83, 85, 86, 89, 91, 92, 95, 97, 101, 104, 105, 106, 109, 111, 112, 113, 114, 117, 7, 8, 13, 15, 16, 19, 20, 21, 23, 24, 31, 36, 40, 42, 45, 46, 49, 50, 52, 56, 62, 65, 66, 67, 68, 70, 72, 73, 74, 76, 79, 80, 82, 83, 84, 87, 91, 93, 109, 111, 112, 113, 114, 115, 0, 1, 2, 3, 4, 5, 9, 11, 12, 20, 22, 24, 26, 29, 30, 31, 33, 35, 40, 44, 45, 50, 52, 64, 65, 67, 71, 73, 74, 77, 78, 79, 80, 82, 85, 89, 92, 97, 100, 102, 103, 104, 105, 107, 108, 110, 112, 116, 117, 4, 7, 8, 9, 10, 11, 16, 17, 19, 27, 34, 37, 40, 41, 44, 45, 46, 47, 49, 51, 54, 56, 57, 61, 64, 67, 78, 81, 83, 85, 88, 89, 93, 95, 101, 104, 106, 107, 108, 113, 116, 117, 118, 3, 8, 11, 12, 14, 15, 19, 20, 21, 22, 24, 25, 27, 28, 29, 30, 31, 34, 50, 51, 52, 53, 55, 56, 59, 60, 70, 71, 77, 78, 79, 82, 83, 85, 86, 91, 93, 95, 97, 104, 105, 106, 109, 110, 111, 114, 115, 117, 118, 3, 4, 5, 7, 10, 14, 15, 16, 17, 18, 22, 23, 25, 27, 31, 32, 33, 34, 35, 38, 48, 50, 58, 66, 72, 76, 77, 78, 84, 85, 86, 87, 89, 92, 93, 95, 96, 97, 100, 109, 110, 111, 115, 116, 117, 3, 4, 5, 7, 8, 10, 11, 13, 16, 17, 19, 22, 25, 30, 32, 38, 40, 41, 42, 46, 47, 48, 51, 53, 54, 55, 56, 57, 59, 60, 61, 62, 63, 68, 71, 73, 74, 75, 76, 79, 80, 81, 82, 84, 86, 87, 90, 94, 96, 97, 98, 99, 101, 102, 104, 111, 112, 114, 116, 118, 2, 3, 4, 6, 7, 8, 11, 13, 15, 17, 24, 25, 28, 30, 35, 39, 40, 41, 43, 44, 46, 47, 48, 49, 51, 53, 56, 64, 65, 67, 70, 71, 73, 76, 79, 81, 85, 89, 91, 96, 97, 98, 99, 100, 101, 102, 104, 109, 111, 112, 113, 114, 116, 117, 119, 2, 3, 11, 13, 14, 27, 30, 31, 34, 39, 41, 42, 43, 49, 50, 53, 55, 56, 58, 59, 61, 62, 64, 65, 66, 67, 68, 69, 73, 74, 76, 77, 79, 81, 86, 88, 95, 97, 98, 104, 106, 108, 110, 111, 112, 115, 119, 4, 10, 14, 15, 19, 22, 25, 28, 33, 34, 35, 38, 40, 42, 43, 44, 45, 46, 48, 52, 53, 56, 57, 58, 59, 61, 63, 68, 70, 72, 76, 79, 85, 86, 87, 95, 97, 100, 101, 106, 107, 111, 112, 113, 114, 117, 118, 4, 5, 7, 8, 10, 11, 13, 16, 18, 20, 24, 25, 29, 30, 31, 34, 39, 40, 42, 44, 45, 46, 47, 49, 51, 53, 54, 57, 59, 60, 62, 63, 65, 66, 69, 70, 71, 73, 76, 77, 79, 81, 84, 85, 94, 95, 98, 99, 100, 106, 114, 115, 117, 119, 2, 4, 6, 11, 12, 14, 16, 17, 18, 19, 20, 25, 26, 27, 31, 33, 37, 39, 41, 46, 48, 50, 54, 55, 57, 59, 63, 66, 68, 69, 71, 73, 74, 76, 78, 79, 81, 85, 89, 95, 103, 106, 108, 115, 116, 1, 6, 8, 10, 13, 17, 20, 22, 27, 29, 31, 35, 36, 37, 38, 40, 43, 45, 48, 49, 50, 51, 55, 57, 67, 68, 69, 70, 72, 76, 77, 80, 81, 83, 86, 89, 90, 91, 95, 97, 99, 103, 104, 105, 106, 109, 111, 112, 116, 117, 2, 3, 9, 10, 14, 18, 19, 20, 23, 24, 27, 32, 33, 34, 37, 39, 41, 42, 46, 47, 51, 54, 58, 59, 60, 63, 67, 68, 71, 74, 80, 81, 82, 86, 87, 88, 89, 90, 91, 96, 98, 104, 110, 111, 114, 115, 117, 118, 119, 0, 2, 7, 9, 14, 16, 17, 18, 21, 23, 25, 27, 28, 34, 35, 36, 39, 41, 42, 44, 46, 48, 54, 55, 59, 62, 63, 68, 69, 71, 77, 79, 82, 83, 84, 85, 86, 88, 89, 90, 95, 96, 98, 100, 101, 102, 104, 107, 110, 114, 116, 5, 7, 11, 15, 18, 19, 24, 26, 27, 28, 32, 35, 36, 40, 47, 49, 50, 52, 53, 59, 68, 72, 75, 76, 79, 82, 88, 89, 91, 94, 95, 100, 103, 104, 108, 109, 112, 114, 1, 6, 11, 14, 15, 18, 19, 20, 26, 29, 34, 35, 39, 40, 42, 45, 46, 48, 51, 55, 62, 63, 65, 73, 76, 78, 79, 81, 87, 88, 91, 93, 97, 102, 103, 104, 108, 110, 111, 113, 114, 115, 117, 119, 0, 6, 7, 10, 14, 21, 22, 24, 30, 34, 39, 40, 41, 42, 48, 50, 51, 55, 56, 57, 59, 60, 62, 71, 72, 73, 77, 79, 81, 83, 84, 87, 98, 100, 104, 110, 112, 113, 115, 0, 1, 9, 10, 13, 14, 17, 18, 21, 22, 25, 33, 38, 40, 42, 44, 46, 52, 53, 57, 58, 63, 64, 66, 67, 68, 74, 78, 79, 85, 89, 91, 93, 94, 95, 98, 107, 108, 113, 115, 116, 119, 3, 4, 7, 8, 10, 11, 14, 18, 20, 24, 25, 26, 29, 32, 33, 35, 36, 37, 38, 40, 44, 47, 49, 51, 55, 58, 61, 66, 70, 71, 74, 75, 76, 77, 78, 79, 81, 83, 85, 100, 101, 102, 105, 112, 119, 4, 6, 14, 17, 18, 19, 20, 23, 24, 26, 31, 36, 37, 39, 41, 46, 49, 50, 51, 57, 59, 61, 62, 64, 65, 67, 78, 79, 81, 83, 85, 87, 88, 90, 91, 93, 100, 104, 105, 106, 109, 111, 113, 114, 117, 118, 119, 0, 6, 15, 17, 19, 20, 21, 23, 26, 28, 30, 32, 33, 34, 36, 39, 40, 41, 46, 47, 48, 51, 53, 58, 59, 60, 61, 62, 63, 65, 69, 70, 72, 75, 76, 78, 89, 90, 92, 94, 96, 97, 103, 104, 105, 111, 118, 1, 3, 7, 14, 16, 18, 20, 24, 25, 26, 28, 30, 32, 34, 36, 40, 45, 47, 48, 49, 51, 52, 57, 58, 66, 71, 74, 76, 77, 79, 80, 81, 85, 86, 90, 94, 97, 98, 100, 102, 103, 105, 108, 113, 114, 115, 116, 117, 118, 119, 0, 2, 3, 4, 6, 8, 9, 13, 15, 20, 21, 23, 30, 31, 32, 34, 38, 42, 43, 47, 55, 56, 59, 62, 67, 72, 77, 80, 81, 82, 84, 88, 89, 91, 93, 95, 96, 100, 101, 110, 113, 114, 117, 118, 0, 1, 3, 4, 5, 8, 9, 13, 14, 16, 19, 20, 23, 24, 25, 29, 38, 40, 41, 48, 49, 53, 56, 60, 61, 65, 66, 71, 74, 79, 80, 82, 83, 85, 96, 97, 103, 104, 110, 112, 114, 3, 4, 11, 12, 13, 18, 21, 26, 27, 29, 30, 34, 35, 37, 38, 39, 40, 47, 48, 62, 63, 64, 65, 66, 68, 70, 71, 72, 74, 78, 80, 86, 87, 88, 89, 90, 91, 92, 94, 96, 97, 98, 101, 103, 104, 105, 109, 112, 116, 118, 119, 2, 3, 5, 7, 8, 12, 13, 14, 17, 21, 26, 29, 34, 37, 39, 41, 43, 47, 48, 49, 52, 55, 56, 57, 58, 60, 63, 67, 73, 74, 76, 77, 79, 84, 85, 86, 87, 91, 94, 95, 97, 98, 101, 102, 106, 108, 109, 110, 117, 1, 7, 11, 17, 19, 20, 23, 24, 25, 26, 27, 29, 32, 36, 37, 40, 51, 53, 55, 57, 61, 62, 66, 69, 71, 74, 75, 77, 80, 82, 84, 86, 87, 89, 90, 92, 97, 99, 100, 103, 104, 106, 109, 110, 116, 117, 1, 3, 6, 7, 10, 11, 12, 15, 16, 17, 18, 20, 22, 26, 27, 29, 31, 32, 35, 37, 39, 42, 47, 48, 51, 54, 56, 59, 60, 61, 62, 65, 67, 68, 71, 72, 74, 79, 86, 87, 92, 94, 95, 99, 100, 101, 103, 107, 109, 115, 117, 118, 119, 0, 3, 4, 12, 13, 14, 17, 18, 21, 24, 27, 28, 33, 37, 38, 40, 42, 45, 47, 48, 51, 52, 53, 54, 60, 62, 64, 66, 67, 68, 71, 74, 76, 81, 82, 88, 89, 93, 94, 100, 101, 103, 104, 106, 110, 113, 114, 119, 3, 4, 7, 8, 14, 15, 19, 23, 28, 29, 30, 32, 33, 34, 35, 36, 39, 40, 44, 48, 57, 59, 61, 64, 65, 66, 68, 69, 71, 72, 78, 79, 82, 83, 84, 87, 94, 95, 96, 97, 99, 102, 105, 106, 109, 110, 114, 116, 117, 118, 0, 1, 4, 6, 7, 8, 15, 17, 19, 22, 27, 28, 31, 32, 37, 38, 39, 43, 47, 48, 51, 55, 56, 59, 62, 65, 67, 70, 72, 76, 79, 82, 86, 88, 89, 90, 93, 94, 96, 106, 107, 109, 111, 112, 113, 114, 115, 116, 3, 7, 8, 11, 13, 19, 20, 24, 29, 30, 31, 32, 35, 36, 38, 39, 40, 42, 44, 47, 49, 50, 51, 52, 56, 60, 61, 63, 67, 68, 69, 70, 73, 75, 76, 78, 79, 83, 84, 88, 90, 91, 96, 99, 100, 105, 106, 107, 108, 109, 111, 113, 114, 115, 117, 118, 119, 0, 7, 10, 11, 13, 14, 16, 17, 18, 23, 25, 31, 32, 35, 38, 40, 42, 44, 45, 46, 47, 49, 51, 53, 55, 56, 58, 59, 60, 61, 64, 65, 70, 72, 74, 77, 80, 84, 87, 90, 94, 95, 99, 100, 101, 106, 109, 111, 112, 115, 116, 117, 118, 119, 2, 4, 5, 9, 10, 11, 12, 13, 16, 17, 18, 26, 28, 29, 30, 33, 34, 35, 38, 40, 43, 44, 45, 46, 50, 53, 54, 55, 58, 61, 66, 69, 70, 76, 78, 79, 80, 83, 85, 88, 89, 92, 97, 103, 108, 112, 113, 119, 0, 4, 5, 9, 10, 11, 13, 14, 18, 19, 26, 28, 32, 35, 36, 37, 41, 42, 45, 46, 49, 52, 53, 55, 56, 59, 62, 64, 65, 67, 68, 69, 73, 74, 75, 79, 83, 85, 88, 90, 91, 92, 93, 94, 95, 96, 99, 100, 101, 103, 104, 106, 108, 113, 114, 117, 6, 7, 10, 11, 12, 16, 20, 24, 27, 35, 38, 40, 45, 47, 51, 56, 57, 58, 68, 71, 74, 76, 79, 83, 86, 90, 95, 96, 99, 101, 103, 110, 112, 113, 115, 116, 118, 119, 1, 3, 6, 9, 10, 12, 14, 16, 18, 19, 25, 27, 28, 29, 31, 34, 35, 36, 38, 40, 44, 46, 47, 51, 53, 55, 57, 58, 64, 65, 68, 69, 70, 74, 77, 81, 82, 84, 89, 92, 96, 98, 99, 102, 107, 111, 112, 113, 114, 115, 118, 119, 2, 3, 4, 8, 13, 16, 17, 24, 25, 27, 31, 32, 35, 37, 38, 40, 41, 44, 46, 47, 48, 49, 50, 52, 54, 56, 57, 62, 63, 67, 68, 69, 72, 78, 79, 82, 85, 86, 87, 89, 90, 95, 98, 102, 104, 105, 106, 107, 110, 115, 116, 4, 14, 16, 19, 20, 26, 28, 31, 37, 38, 47, 52, 53, 54, 59, 60, 61, 62, 65, 66, 67, 71, 75, 76, 83, 85, 89, 90, 98, 101, 106, 108, 110, 111, 112, 113, 117, 0, 2, 4, 8, 9, 11, 13, 14, 16, 22, 25, 26, 28, 30, 31, 32, 39, 41, 46, 47, 48, 51, 53, 54, 59, 61, 63, 69, 71, 74, 75, 83, 84, 86, 87, 88, 94, 95, 96, 99, 101, 102, 103, 104, 106, 107, 108, 109, 111, 112, 113, 117, 119, 3, 4, 7, 9, 10, 11, 12, 16, 17, 18, 21, 23, 24, 28, 32, 34, 35, 38, 42, 44, 47, 49, 52, 53, 54, 56, 57, 59, 61, 63, 64, 65, 68, 70, 71, 74, 77, 85, 88, 91, 92, 93, 94, 95, 97, 99, 102, 108, 113, 115, 119, 0, 2, 3, 7, 10, 16, 18, 23, 24, 26, 28, 29, 33, 34, 35, 38, 41, 43, 44, 46, 47, 50, 55, 58, 60, 61, 69, 70, 71, 72, 75, 79, 82, 86, 88, 89, 90, 91, 92, 95, 100, 103, 105, 106, 109, 111, 112, 118, 0, 5, 6, 7, 12, 14, 15, 16, 18, 20, 27, 28, 33, 34, 35, 36, 37, 38, 39, 41, 44, 46, 55, 56, 59, 61, 64, 65, 66, 71, 72, 73, 74, 76, 77, 78, 81, 86, 88, 89, 93, 96, 100, 106, 109, 112, 114, 115, 0, 2, 3, 5, 8, 10, 11, 12, 13, 14, 15, 17, 20, 22, 23, 24, 25, 27, 29, 31, 32, 35, 38, 41, 44, 49, 54, 58, 59, 62, 64, 65, 67, 68, 69, 70, 72, 73, 74, 75, 77, 78, 80, 81, 82, 83, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 96, 100, 101, 103, 105, 107, 108, 109, 111, 112, 116, 118, 119, 5, 6, 12, 15, 16, 17, 19, 22, 23, 24, 27, 28, 29, 37, 39, 40, 43, 45, 49, 50, 51, 54, 56, 60, 63, 64, 65, 69, 70, 74, 75, 78, 79, 81, 84, 85, 92, 94, 95, 99, 105, 108, 109, 110, 111, 113, 6, 11, 12, 17, 19, 20, 21, 24, 28, 32, 38, 42, 47, 48, 50, 63, 64, 65, 66, 68, 69, 70, 73, 74, 75, 77, 80, 81, 83, 84, 94, 95, 96, 98, 103, 109, 111, 115, 116, 118, 1, 4, 5, 8, 9, 10, 11, 13, 18, 19, 20, 21, 22, 23, 24, 26, 29, 31, 33, 36, 40, 41, 43, 49, 50, 52, 54, 66, 69, 70, 74, 77, 78, 80, 83, 88, 89, 90, 93, 96, 97, 99, 102, 103, 104, 106, 108, 111, 116, 117, 119, 2, 4, 5, 7, 11, 13, 15, 18, 22, 27, 29, 30, 36, 37, 38, 43, 49, 50, 54, 55, 56, 61, 69, 73, 76, 78, 79, 80, 83, 86, 90, 93, 95, 97, 98, 101, 102, 103, 108, 110, 114, 115, 117, 118, 2, 5, 7, 9, 11, 12, 15, 22, 23, 24, 26, 27, 28, 29, 31, 32, 40, 41, 45, 46, 48, 54, 58, 60, 65, 72, 74, 75, 76, 83, 85, 88, 89, 91, 97, 100, 101, 106, 111, 115, 116, 118, 119, 6, 8, 10, 11, 12, 13, 15, 16, 19, 21, 25, 27, 28, 33, 38, 42, 47, 48, 53, 54, 55, 58, 60, 62, 63, 64, 65, 67, 69, 71, 72, 74, 76, 78, 80, 81, 82, 84, 88, 96, 97, 98, 99, 101, 102, 107, 109, 111, 113, 114, 117, 0, 1, 3, 4, 9, 12, 17, 18, 26, 28, 32, 33, 34, 35, 44, 46, 47, 57, 59, 62, 63, 67, 74, 75, 81, 82, 89, 90, 92, 96, 98, 99, 100, 103, 109, 112, 113, 117, 119, 3, 4, 6, 9, 11, 12, 13, 15, 27, 28, 29, 30, 37, 40, 41, 43, 46, 50, 52, 53, 54, 55, 56, 59, 60, 62, 70, 73, 74, 77, 79, 81, 82, 86, 88, 93, 95, 98, 101, 103, 105, 106, 113, 114, 115, 119, 0, 3, 5, 9, 10, 12, 16, 17, 20, 25, 36, 38, 39, 40, 41, 46, 48, 52, 60, 61, 62, 63, 65, 68, 69, 70, 71, 72, 73, 74, 77, 78, 80, 82, 84, 85, 87, 90, 91, 94, 98, 102, 103, 105, 106, 108, 110, 114, 115, 117, 2, 5, 11, 14, 15, 18, 21, 25, 26, 27, 33, 34, 37, 38, 41, 45, 51, 52, 54, 55, 57, 59, 60, 62, 63, 69, 71, 76, 77, 80, 81, 85, 86, 87, 91, 96, 98, 101, 106, 110, 111, 112, 113, 114, 119, 3, 4, 6, 8, 10, 12, 19, 20, 21, 25, 30, 31, 32, 33, 34, 39, 42, 44, 46, 47, 49, 50, 51, 56, 64, 66, 67, 70, 72, 73, 74, 76, 78, 80, 81, 85, 86, 92, 95, 98, 102, 107, 112, 116, 118, 119, 3, 4, 6, 9, 14, 15, 21, 23, 25, 28, 29, 30, 32, 33, 35, 36, 48, 50, 51, 52, 53, 61, 65, 68, 69, 72, 73, 76, 79, 80, 81, 83, 86, 88, 100, 101, 103, 104, 105, 106, 107, 111, 113, 115, 116, 0, 1, 4, 5, 7, 9, 14, 15, 16, 17, 20, 24, 29, 31, 32, 33, 35, 40, 41, 43, 47, 48, 50, 54, 57, 58, 59, 60, 62, 74, 79, 83, 90, 92, 95, 96, 100, 104, 105, 106, 108, 109, 112, 113, 115, 119, 2, 6, 7, 10, 12, 13, 16, 20, 22, 23, 26, 29, 31, 32, 35, 37, 38, 42, 45, 46, 47, 48, 49, 52, 56, 57, 60, 62, 63, 67, 69, 70, 79, 82, 84, 88, 89, 91, 92, 94, 95, 105, 108, 110, 112, 113, 114, 118, 0, 3, 4, 9, 11, 12, 13, 16, 19, 21, 23, 25, 33, 35, 38, 42, 43, 46, 49, 52, 53, 55, 57, 58, 60, 61, 62, 66, 69, 74, 76, 77, 78, 79, 80, 82, 83, 85, 86, 91, 93, 95, 98, 101, 109, 110, 113, 115, 1, 3, 4, 5, 7, 8, 11, 14, 15, 16, 19, 21, 22, 24, 27, 28, 34, 36, 37, 41, 42, 44, 45, 49, 51, 54, 61, 69, 72, 76, 78, 80, 82, 85, 86, 87, 93, 96, 98, 101, 102, 111, 112, 114, 115, 118, 1, 5, 8, 9, 10, 11, 13, 16, 21, 26, 27, 28, 29, 31, 33, 37, 38, 42, 43, 44, 49, 50, 52, 53, 54, 56, 58, 60, 64, 71, 75, 76, 82, 84, 87, 88, 89, 94, 96, 98, 100, 103, 105, 109, 114, 115, 118, 119, 3, 8, 9, 10, 17, 18, 22, 24, 28, 29, 32, 33, 36, 37, 41, 42, 44, 46, 51, 65, 67, 68, 71, 74, 78, 80, 81, 85, 90, 96, 97, 100, 106, 107, 109, 110, 114, 117, 118, 119, 0, 1, 4, 5, 10, 12, 13, 20, 23, 25, 26, 27, 28, 29, 30, 32, 33, 34, 35, 36, 39, 40, 43, 44, 45, 48, 49, 54, 61, 63, 65, 66, 67, 69, 73, 76, 78, 82, 83, 85, 88, 89, 93, 94, 95, 96, 101, 102, 103, 106, 107, 110, 113, 116, 1, 5, 12, 13, 14, 16, 22, 24, 26, 27, 28, 30, 37, 41, 43, 44, 45, 46, 50, 51, 53, 55, 57, 58, 59, 66, 67, 71, 73, 74, 75, 76, 77, 79, 81, 82, 84, 86, 87, 88, 92, 94, 101, 102, 103, 104, 113, 115, 116, 2, 4, 5, 7, 8, 9, 11, 14, 15, 16, 17, 18, 20, 21, 23, 31, 32, 36, 37, 38, 44, 49, 50, 53, 60, 61, 63, 65, 67, 68, 69, 71, 72, 76, 81, 83, 84, 85, 86, 87, 88, 89, 90, 92, 93, 96, 100, 102, 103, 104, 108, 110, 113, 119, 1, 2, 5, 6, 8, 11, 12, 13, 17, 18, 19, 22, 23, 24, 25, 29, 31, 35, 37, 39, 42, 44, 48, 53, 61, 62, 66, 68, 70, 72, 80, 81, 82, 83, 85, 87, 89, 90, 92, 93, 95, 96, 97, 98, 99, 100, 101, 108, 109, 110, 111, 115, 116, 119, 0, 1, 6, 10, 11, 12, 13, 15, 18, 19, 21, 22, 24, 29, 32, 34, 35, 44, 45, 47, 48, 49, 51, 58, 64, 65, 66, 68, 70, 71, 78, 79, 80, 81, 85, 89, 95, 97, 101, 109, 110, 111, 114, 115, 116, 117, 119, 1, 2, 7, 14, 17, 22, 25, 32, 36, 40, 43, 45, 51, 53, 54, 55, 56, 59, 60, 61, 64, 67, 68, 69, 72, 73, 76, 80, 81, 84, 85, 86, 87, 89, 92, 94, 95, 97, 100, 103, 104, 105, 107, 108, 109, 110, 115, 116, 117, 119, 5, 6, 7, 10, 13, 16, 21, 22, 24, 25, 28, 29, 30, 31, 33, 34, 41, 42, 45, 46, 47, 49, 59, 61, 62, 63, 64, 65, 66, 67, 71, 72, 74, 75, 78, 80, 81, 82, 83, 86, 90, 91, 94, 97, 99, 104, 105, 106, 113, 114, 116, 118, 119, 2, 6, 8, 9, 12, 14, 16, 19, 20, 24, 25, 26, 27, 36, 39, 41, 42, 46, 49, 51, 52, 55, 56, 57, 59, 61, 63, 67, 71, 72, 79, 83, 85, 89, 91, 92, 93, 94, 95, 96, 98, 100, 104, 106, 108, 111, 112, 114, 115, 118, 119, 1, 4, 13, 14, 17, 20, 22, 24, 25, 28, 29, 33, 35, 38, 40, 43, 45, 46, 49, 50, 52, 54, 56, 58, 60, 61, 63, 65, 66, 67, 68, 69, 70, 73, 77, 80, 83, 84, 85, 86, 88, 91, 92, 98, 99, 101, 102, 105, 107, 108, 112, 114, 115, 116, 119, 3, 4, 5, 7, 8, 12, 14, 15, 17, 19, 21, 22, 25, 31, 32, 35, 37, 38, 39, 43, 44, 48, 56, 65, 67, 69, 73, 74, 75, 76, 79, 81, 82, 86, 88, 91, 92, 94, 96, 98, 100, 101, 103, 107, 111, 112, 115, 5, 7, 9, 12, 13, 16, 17, 18, 20, 24, 28, 29, 31, 38, 39, 40, 42, 43, 44, 47, 49, 50, 53, 55, 56, 57, 59, 60, 63, 66, 77, 81, 83, 84, 85, 86, 92, 94, 95, 100, 102, 104, 108, 112, 113, 115, 116, 118, 0, 1, 3, 4, 5, 7, 8, 9, 10, 11, 12, 14, 15, 16, 18, 19, 20, 23, 24, 26, 27, 28, 31, 33, 35, 38, 40, 43, 46, 48, 53, 56, 57, 60, 62, 63, 64, 66, 68, 69, 72, 73, 76, 79, 86, 87, 88, 91, 94, 97, 102, 106, 107, 110, 112, 113, 114, 116, 119, 0, 2, 4, 5, 9, 13, 15, 16, 19, 20, 22, 24, 29, 37, 41, 46, 50, 53, 55, 57, 60, 64, 67, 68, 69, 71, 75, 79, 80, 84, 89, 91, 92, 95, 97, 104, 107, 108, 110, 111, 112, 113, 116, 119, 2, 6, 7, 10, 12, 13, 16, 19, 22, 24, 27, 29, 31, 34, 36, 38, 41, 44, 45, 54, 61, 65, 66, 72, 77, 79, 80, 85, 87, 89, 92, 94, 99, 102, 106, 107, 112, 116, 119, 2, 3, 7, 13, 15, 18, 23, 24, 26, 28, 29, 30, 31, 32, 33, 35, 40, 42, 43, 44, 46, 48, 49, 59, 60, 63, 67, 70, 74, 75, 77, 80, 81, 83, 85, 86, 90, 92, 93, 94, 97, 102, 103, 104, 106, 111, 113, 116, 117, 118, 1, 2, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 19, 20, 23, 26, 29, 30, 33, 35, 37, 39, 47, 49, 52, 53, 55, 60, 65, 66, 70, 74, 76, 77, 79, 82, 85, 87, 90, 92, 97, 98, 102, 104, 105, 106, 107, 108, 111, 112, 114, 1, 5, 7, 8, 10, 11, 18, 20, 21, 26, 28, 31, 34, 35, 36, 37, 38, 43, 46, 48, 49, 52, 60, 62, 64, 67, 70, 74, 78, 79, 80, 81, 84, 85, 87, 90, 91, 92, 94, 95, 99, 100, 102, 103, 105, 109, 112, 113, 114, 115, 117, 118, 0, 2, 6, 7, 8, 12, 13, 16, 19, 22, 23, 29, 32, 34, 40, 44, 47, 48, 49, 52, 53, 55, 57, 58, 59, 60, 63, 65, 71, 73, 75, 77, 81, 82, 83, 87, 89, 91, 93, 96, 104, 105, 108, 110, 111, 115, 119, 2, 4, 6, 7, 12, 13, 16, 18, 22, 25, 27, 31, 32, 33, 37, 38, 41, 43, 47, 49, 51, 53, 56, 57, 60, 64, 65, 69, 71, 72, 74, 75, 79, 82, 84, 85, 90, 91, 93, 97, 98, 106, 109, 113, 117, 118, 1, 7, 8, 10, 11, 12, 13, 16, 20, 23, 25, 27, 28, 29, 30, 33, 37, 38, 40, 41, 43, 44, 45, 49, 52, 53, 54, 58, 60, 61, 62, 65, 66, 68, 69, 70, 72, 73, 74, 76, 79, 81, 84, 85, 95, 96, 102, 103, 107, 109, 113, 115, 116, 117, 118, 119, 0, 2, 9, 11, 14, 15, 16, 20, 21, 23, 24, 28, 29, 30, 33, 36, 37, 40, 42, 43, 44, 52, 53, 55, 57, 61, 63, 64, 65, 67, 69, 70, 73, 75, 79, 83, 89, 90, 96, 97, 103, 106, 107, 109, 111, 112, 113, 116, 119, 0, 5, 6, 8, 11, 13, 14, 19, 22, 25, 26, 29, 31, 32, 33, 35, 37, 38, 41, 42, 43, 46, 47, 51, 55, 57, 59, 60, 61, 62, 63, 64, 67, 70, 71, 75, 76, 79, 82, 84, 85, 87, 89, 91, 95, 96, 100, 101, 104, 108, 114, 116, 117, 118, 1, 2, 3, 6, 8, 10, 12, 15, 18, 20, 26, 30, 35, 36, 37, 47, 48, 53, 56, 58, 59, 63, 65, 67, 69, 70, 75, 78, 79, 86, 87, 90, 97, 100, 103, 109, 110, 111, 117, 118, 119, 0, 1, 2, 3, 5, 6, 7, 9, 10, 12, 13, 16, 17, 18, 19, 23, 29, 33, 35, 36, 37, 40, 42, 43, 45, 47, 52, 55, 59, 61, 64, 66, 67, 72, 74, 75, 77, 80, 83, 86, 92, 93, 95, 96, 98, 99, 100, 102, 103, 106, 108, 111, 112, 116, 118, 0, 1, 2, 5, 9, 11, 13, 15, 22, 25, 27, 29, 32, 33, 35, 38, 40, 44, 45, 46, 50, 51, 53, 54, 55, 58, 62, 63, 64, 65, 79, 81, 85, 86, 89, 90, 91, 95, 96, 97, 99, 100, 102, 111, 112, 113, 115, 117, 118, 119, 0, 1, 2, 4, 5, 9, 11, 16, 18, 19, 20, 21, 22, 24, 29, 30, 31, 35, 36, 38, 40, 42, 44, 46, 53, 57, 58, 60, 62, 64, 66, 67, 68, 70, 74, 75, 82, 84, 87, 91, 95, 99, 101, 108, 112, 113, 114, 115, 116, 0, 6, 7, 8, 10, 14, 17, 18, 20, 22, 26, 27, 29, 30, 31, 35, 36, 38, 45, 48, 50, 53, 55, 57, 58, 62, 63, 65, 66, 71, 74, 78, 81, 82, 83, 84, 85, 86, 87, 90, 92, 93, 94, 97, 98, 99, 100, 101, 102, 104, 105, 107, 108, 113, 116, 0, 1, 3, 4, 6, 16, 17, 18, 19, 20, 21, 25, 27, 34, 35, 36, 40, 44, 46, 54, 59, 62, 64, 70, 71, 74, 75, 77, 78, 79, 86, 91, 93, 94, 95, 96, 98, 99, 101, 110, 3, 4, 5, 10, 11, 14, 15, 20, 22, 25, 26, 27, 36, 37, 40, 41, 45, 46, 49, 54, 55, 56, 59, 63, 65, 68, 73, 76, 84, 92, 93, 96, 99, 103, 106, 107, 108, 109, 110, 112, 113, 115, 116, 117, 119, 1, 2, 7, 11, 13, 14, 17, 20, 23, 28, 31, 34, 35, 37, 40, 42, 44, 45, 54, 61, 63, 66, 69, 72, 79, 81, 85, 86, 88, 93, 98, 99, 100, 107, 113, 114, 115, 117, 118, 12, 13, 14, 23, 28, 31, 32, 40, 41, 42, 43, 44, 45, 48, 52, 54, 55, 56, 57, 62, 64, 66, 67, 68, 73, 75, 78, 81, 82, 85, 87, 88, 89, 91, 93, 96, 104, 107, 108, 111, 115, 116, 119, 1, 2, 16, 18, 23, 29, 30, 33, 35, 36, 37, 38, 46, 52, 63, 65, 66, 70, 72, 76, 77, 80, 85, 87, 88, 89, 92, 93, 95, 96, 99, 107, 108, 113, 114, 2, 9, 10, 12, 13, 15, 17, 19, 21, 22, 25, 28, 29, 31, 34, 35, 36, 37, 38, 39, 40, 42, 43, 48, 58, 59, 61, 63, 72, 75, 76, 79, 81, 84, 92, 93, 95, 96, 97, 98, 102, 106, 108, 111, 1, 2, 3, 5, 6, 10, 12, 13, 16, 21, 23, 25, 27, 30, 33, 36, 38, 41, 42, 43, 50, 51, 52, 56, 57, 58, 60, 62, 63, 69, 70, 72, 74, 75, 76, 77, 78, 81, 85, 86, 88, 89, 90, 98, 106, 109, 110, 113, 114, 115, 0, 1, 4, 5, 6, 7, 13, 14, 15, 17, 23, 31, 40, 41, 43, 45, 50, 54, 55, 65, 66, 70, 71, 73, 76, 77, 78, 80, 82, 83, 84, 91, 99, 101, 102, 104, 105, 106, 109, 110, 111, 114, 115, 118, 0, 4, 5, 6, 8, 9, 10, 12, 14, 18, 20, 21, 22, 25, 26, 30, 31, 32, 38, 40, 49, 50, 56, 69, 72, 73, 76, 79, 81, 82, 86, 87, 92, 94, 98, 99, 103, 107, 108, 110, 115, 116, 1, 4, 5, 7, 10, 12, 13, 18, 19, 20, 21, 23, 26, 27, 31, 35, 37, 38, 43, 49, 51, 54, 58, 63, 68, 70, 72, 74, 77, 79, 80, 81, 83, 86, 87, 92, 96, 97, 98, 99, 101, 104, 105, 106, 108, 117, 118, 119, 3, 5, 6, 7, 8, 11, 13, 16, 17, 18, 19, 21, 22, 23, 24, 27, 28, 31, 32, 36, 37, 38, 39, 44, 45, 46, 47, 51, 53, 55, 56, 58, 59, 60, 61, 62, 63, 65, 66, 70, 72, 76, 77, 78, 80, 82, 83, 85, 89, 91, 94, 95, 96, 97, 99, 102, 103, 106, 110, 111, 113, 114, 115, 117, 0, 3, 5, 11, 16, 18, 19, 25, 27, 28, 29, 39, 41, 45, 46, 47, 48, 50, 51, 52, 53, 54, 57, 58, 63, 65, 67, 69, 70, 76, 79, 80, 82, 83, 84, 85, 93, 95, 97, 98, 100, 103, 106, 109, 116, 118, 2, 3, 8, 12, 14, 18, 23, 25, 30, 34, 36, 37, 38, 39, 40, 41, 48, 50, 53, 55, 57, 58, 59, 62, 64, 65, 67, 68, 69, 71, 74, 75, 76, 78, 81, 85, 86, 88, 90, 92, 98, 101, 103, 106, 108, 111, 114, 116, 117, 2, 6, 8, 11, 13, 18, 23, 24, 25, 26, 27, 28, 29, 31, 32, 34, 35, 36, 37, 41, 42, 43, 46, 48, 57, 58, 67, 69, 72, 73, 75, 76, 77, 79, 81, 82, 84, 88, 89, 90, 91, 96, 98, 101, 107, 112, 113, 114, 117, 0, 5, 7, 8, 9, 19, 26, 27, 28, 29, 30, 32, 33, 34, 37, 41, 47, 48, 51, 53, 59, 62, 64, 67, 68, 69, 72, 73, 74, 76, 77, 78, 79, 80, 81, 82, 83, 87, 92, 93, 96, 98, 100, 102, 108, 110, 114, 115, 116, 117, 119, 0, 1, 3, 7, 8, 9, 11, 14, 20, 25, 28, 29, 30, 32, 34, 37, 39, 45, 46, 47, 49, 50, 51, 52, 53, 57, 62, 63, 66, 69, 70, 74, 75, 78, 81, 83, 84, 89, 91, 93, 96, 100, 102, 104, 107, 110, 112, 114, 115, 116, 119, 1, 3, 4, 5, 10, 11, 14, 18, 19, 20, 21, 24, 25, 26, 29, 33, 36, 37, 39, 44, 48, 52, 58, 67, 69, 74, 79, 80, 81, 86, 88, 96, 97, 98, 100, 101, 102, 105, 111, 116, 119, 1, 2, 5, 7, 8, 10, 11, 12, 13, 21, 22, 23, 27, 28, 29, 31, 33, 34, 36, 38, 42, 43, 44, 48, 50, 60, 62, 63, 66, 67, 69, 70, 78, 82, 86, 87, 90, 95, 97, 99, 101, 103, 105, 106, 108, 109, 111, 117, 0, 1, 3, 5, 9, 11, 12, 16, 19, 21, 23, 25, 26, 27, 30, 31, 33, 34, 36, 40, 41, 43, 48, 53, 54, 55, 57, 62, 64, 65, 68, 70, 76, 80, 81, 87, 88, 94, 97, 99, 100, 103, 104, 108, 109, 110, 112, 115, 116, 119, 0, 2, 4, 7, 10, 12, 15, 17, 18, 21, 22, 24, 28, 35, 36, 39, 40, 42, 45, 47, 54, 55, 58, 60, 63, 65, 67, 68, 74, 80, 82, 84, 85, 87, 88, 89, 90, 91, 92, 93, 95, 98, 100, 106, 109, 114, 1, 2, 3, 4, 5, 6, 7, 10, 13, 19, 20, 21, 25, 26, 27, 28, 29, 30, 33, 34, 35, 36, 42, 44, 45, 48, 54, 56, 58, 59, 67, 70, 73, 74, 76, 80, 83, 91, 95, 99, 101, 102, 103, 107, 110, 111, 112, 118, 119, 0, 3, 4, 6, 8, 11, 12, 22, 24, 25, 29, 35, 37, 39, 41, 44, 45, 47, 51, 59, 61, 65, 69, 73, 74, 76, 77, 79, 82, 85, 87, 92, 95, 99, 101, 102, 104, 105, 106, 107, 111, 112, 113, 117, 4, 5, 6, 10, 11, 12, 14, 15, 16, 17, 18, 19, 21, 22, 25, 28, 29, 35, 37, 38, 40, 45, 46, 48, 50, 52, 53, 56, 58, 61, 64, 65, 69, 70, 73, 74, 76, 77, 79, 88, 89, 94, 97, 102, 105, 107, 110, 114, 119, 2, 4, 5, 7, 12, 13, 15, 18, 20, 21, 23, 24, 25, 26, 29, 30, 31, 32, 36, 41, 43, 45, 48, 49, 55, 57, 60, 63, 70, 72, 73, 75, 78, 79, 80, 83, 85, 86, 87, 96, 97, 102, 106, 113, 115, 0, 2, 3, 4, 7, 9, 11, 12, 14, 16, 17, 20, 22, 23, 28, 30, 33, 37, 41, 44, 48, 50, 53, 56, 57, 59, 61, 63, 64, 66, 67, 72, 75, 80, 82, 84, 87, 89, 91, 94, 95, 96, 100, 103, 104, 107, 117, 6, 13, 14, 16, 18, 20, 21, 25, 29, 31, 33, 35, 42, 43, 44, 45, 48, 51, 52, 55, 56, 57, 65, 68, 70, 74, 76, 77, 79, 81, 82, 83, 84, 85, 86, 88, 89, 92, 94, 96, 99, 103, 109, 112, 114, 115, 116, 119, 0, 3, 4, 7, 11, 13, 19, 20, 25, 28, 30, 34, 38, 41, 48, 49, 52, 53, 54, 55, 56, 58, 62, 64, 69, 74, 76, 79, 88, 89, 91, 92, 93, 95, 97, 99, 100, 102, 103, 112, 113, 114, 119, 2, 8, 10, 11, 12, 18, 19, 23, 25, 27, 28, 31, 32, 35, 42, 43, 44, 45, 50, 51, 56, 57, 58, 59, 60, 62, 63, 68, 71, 72, 74, 75, 80, 81, 82, 83, 85, 87, 90, 92, 93, 95, 96, 97, 98, 99, 100, 102, 104, 107, 108, 113, 118, 0, 1, 3, 5, 7, 8, 9, 11, 16, 17, 18, 19, 22, 26, 34, 37, 40, 42, 43, 46, 48, 49, 50, 55, 58, 60, 66, 67, 68, 75, 76, 81, 84, 87, 95, 96, 97, 99, 100, 104, 106, 107, 108, 109, 110, 111, 113, 115, 1, 3, 4, 10, 15, 19, 21, 26, 31, 35, 37, 38, 39, 40, 41, 44, 47, 48, 49, 52, 53, 55, 57, 59, 65, 67, 68, 69, 73, 75, 76, 77, 83, 84, 85, 87, 89, 90, 92, 93, 95, 97, 99, 103, 105, 106, 111, 113, 114, 119, 0, 2, 3, 5, 7, 17, 18, 21, 28, 30, 31, 34, 37, 38, 39, 45, 46, 52, 55, 58, 59, 60, 63, 67, 69, 71, 73, 74, 75, 76, 84, 86, 87, 92, 94, 98, 101, 102, 104, 108, 111, 112, 114, 115, 117, 119, 2, 3, 5, 6, 9, 11, 12, 13, 14, 18, 19, 20, 23, 24, 30, 34, 38, 39, 40, 41, 42, 46, 51, 52, 54, 56, 58, 61, 65, 66, 67, 68, 71, 73, 74, 75, 78, 79, 83, 84, 86, 89, 90, 91, 92, 93, 98, 99, 100, 102, 103, 104, 105, 107, 108, 110, 112, 115, 117, 0, 5, 11, 12, 13, 14, 20, 21, 25, 33, 38, 40, 43, 45, 46, 50, 58, 61, 62, 64, 72, 77, 79, 80, 82, 84, 86, 88, 91, 93, 95, 96, 100, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 119, 0, 1, 4, 5, 11, 14, 16, 21, 22, 25, 28, 29, 30, 31, 32, 33, 34, 40, 44, 46, 48, 51, 54, 56, 58, 59, 61, 62, 64, 67, 69, 71, 75, 76, 77, 81, 86, 90, 92, 93, 95, 97, 98, 99, 100, 101, 104, 105, 108, 109, 118, 1, 6, 7, 11, 15, 19, 20, 21, 27, 29, 35, 39, 40, 42, 45, 51, 53, 59, 62, 64, 65, 68, 70, 76, 77, 82, 84, 85, 86, 88, 93, 97, 99, 102, 104, 105, 107, 113, 117, 119, 0, 3, 5, 9, 11, 12, 14, 15, 18, 24, 27, 30, 34, 35, 36, 40, 47, 48, 51, 53, 54, 57, 58, 61, 62, 67, 68, 73, 76, 79, 82, 83, 84, 85, 87, 90, 91, 92, 96, 97, 99, 101, 102, 103, 104, 111, 112, 115, 117, 119, 4, 7, 8, 9, 11, 13, 17, 19, 20, 21, 23, 24, 26, 27, 30, 31, 39, 43, 47, 52, 55, 56, 59, 62, 63, 66, 67, 68, 71, 78, 82, 83, 85, 86, 87, 92, 95, 96, 99, 100, 102, 107, 109, 110, 111, 114, 116, 118, 119, 0, 4, 5, 6, 7, 11, 12, 13, 23, 26, 27, 29, 30, 37, 39, 42, 43, 45, 52, 53, 55, 57, 58, 59, 60, 64, 65, 73, 76, 77, 78, 82, 83, 88, 90, 93, 98, 104, 105, 107, 108, 111, 115, 117, 119, 0, 5, 7, 8, 9, 10, 16, 19, 24, 25, 26, 27, 30, 31, 38, 39, 41, 42, 45, 47, 51, 52, 53, 56, 57, 58, 61, 65, 67, 77, 79, 83, 85, 89, 95, 97, 98, 102, 104, 108, 112, 113, 114, 118, 119, 2, 4, 9, 11, 16, 18, 22, 24, 26, 27, 28, 33, 34, 36, 37, 40, 42, 49, 52, 53, 62, 64, 65, 66, 77, 78, 79, 82, 83, 88, 92, 95, 99, 100, 105, 107, 110, 115, 116, 117, 4, 5, 6, 7, 9, 13, 17, 19, 20, 22, 23, 26, 28, 31, 37, 38, 40, 41, 42, 48, 49, 50, 51, 52, 57, 58, 60, 62, 63, 64, 66, 68, 71, 74, 75, 77, 79, 81, 85, 92, 95, 97, 99, 103, 104, 109, 111, 112, 0, 6, 7, 11, 14, 16, 17, 18, 19, 21, 24, 30, 32, 34, 41, 42, 43, 46, 48, 49, 51, 53, 56, 57, 58, 60, 63, 64, 66, 71, 72, 73, 74, 75, 80, 81, 83, 84, 88, 91, 93, 94, 95, 97, 100, 103, 109, 110, 114, 116, 117, 3, 8, 11, 14, 18, 20, 24, 26, 27, 31, 36, 37, 39, 40, 46, 47, 49, 53, 54, 56, 59, 61, 63, 67, 70, 72, 73, 75, 76, 77, 81, 86, 88, 92, 94, 99, 102, 103, 104, 105, 109, 112, 113, 114, 115, 116, 117, 118, 2, 4, 8, 9, 13, 14, 16, 22, 23, 25, 27, 28, 29, 32, 35, 38, 41, 42, 43, 45, 47, 49, 50, 51, 52, 55, 56, 62, 63, 67, 70, 71, 73, 74, 75, 77, 79, 86, 89, 92, 93, 95, 97, 98, 99, 100, 103, 104, 108, 109, 111, 112, 113, 114, 118, 119, 1, 5, 6, 8, 10, 12, 13, 15, 23, 28, 33, 38, 42, 47, 48, 50, 51, 52, 57, 58, 59, 61, 66, 68, 70, 72, 74, 76, 77, 79, 80, 86, 91, 94, 96, 97, 100, 101, 102, 103, 104, 107, 108, 109, 110, 111, 112, 114, 119, 1, 2, 6, 8, 9, 10, 11, 18, 19, 24, 35, 36, 37, 39, 40, 41, 48, 51, 52, 56, 58, 61, 66, 67, 71, 72, 73, 77, 78, 79, 82, 83, 92, 93, 98, 99, 100, 101, 102, 103, 104, 106, 107, 111, 112, 113, 114, 115, 117, 1, 4, 7, 9, 11, 12, 13, 15, 16, 18, 20, 25, 28, 29, 30, 32, 33, 39, 42, 43, 44, 46, 47, 51, 55, 56, 63, 66, 73, 77, 82, 83, 84, 90, 91, 93, 96, 99, 101, 102, 106, 110, 116, 118, 0, 1, 9, 10, 11, 13, 15, 16, 17, 18, 19, 22, 25, 30, 33, 34, 37, 40, 41, 42, 47, 49, 52, 56, 60, 65, 72, 73, 74, 76, 77, 82, 84, 85, 89, 93, 96, 97, 100, 101, 103, 105, 106, 110, 112, 113, 114, 119, 0, 1, 3, 4, 7, 8, 12, 15, 16, 17, 18, 21, 22, 25, 26, 30, 31, 33, 34, 35, 42, 50, 52, 53, 54, 55, 57, 58, 60, 61, 63, 65, 66, 68, 75, 77, 78, 79, 82, 83, 84, 86, 103, 106, 111, 116, 119, 1, 3, 6, 10, 14, 15, 17, 19, 21, 22, 25, 26, 27, 28, 32, 36, 38, 39, 44, 52, 54, 56, 57, 61, 62, 64, 67, 69, 70, 72, 73, 74, 75, 76, 81, 84, 86, 87, 89, 92, 94, 95, 98, 99, 100, 102, 103, 105, 109, 110, 111, 115, 116, 118, 119, 0, 1, 2, 4, 7, 9, 10, 12, 13, 14, 20, 22, 25, 26, 29, 34, 36, 37, 42, 43, 45, 46, 48, 50, 51, 52, 53, 65, 66, 67, 72, 74, 75, 79, 80, 81, 84, 85, 87, 89, 91, 92, 93, 94, 97, 105, 107, 110, 111, 112, 114, 116, 118, 3, 4, 5, 10, 14, 15, 16, 17, 20, 25, 27, 29, 30, 33, 36, 42, 43, 44, 49, 51, 52, 53, 55, 56, 58, 60, 61, 62, 65, 70, 71, 79, 80, 83, 85, 86, 89, 90, 91, 93, 97, 98, 101, 103, 105, 106, 109, 110, 111, 116, 4, 7, 11, 13, 15, 18, 19, 22, 25, 31, 38, 43, 45, 46, 47, 49, 50, 51, 52, 57, 58, 59, 61, 63, 65, 68, 71, 73, 77, 82, 83, 84, 85, 88, 91, 96, 97, 100, 101, 103, 104, 105, 106, 107, 115, 118, 0, 3, 6, 9, 10, 13, 15, 17, 20, 21, 23, 30, 32, 35, 37, 40, 41, 44, 45, 47, 48, 50, 53, 56, 57, 62, 63, 66, 67, 68, 69, 70, 71, 73, 74, 75, 78, 79, 80, 83, 84, 88, 90, 93, 97, 100, 106, 107, 109, 111, 113, 117, 118, 0, 1, 8, 10, 11, 12, 13, 14, 16, 17, 18, 19, 20, 21, 22, 23, 26, 27, 28, 31, 33, 34, 36, 47, 50, 51, 52, 53, 62, 66, 71, 72, 73, 74, 75, 76, 77, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 93, 96, 100, 112, 113, 114, 116, 118, 119, 1, 3, 4, 6, 7, 10, 11, 12, 18, 19, 22, 23, 27, 31, 32, 35, 38, 39, 41, 45, 46, 48, 49, 50, 51, 52, 55, 57, 58, 62, 64, 67, 69, 72, 73, 75, 80, 85, 87, 89, 94, 103, 104, 105, 106, 111, 115, 0, 1, 2, 5, 6, 8, 9, 11, 13, 15, 16, 17, 22, 24, 25, 26, 27, 28, 35, 40, 43, 44, 45, 48, 53, 58, 72, 73, 74, 77, 79, 81, 84, 85, 89, 94, 98, 101, 102, 103, 106, 112, 115, 117, 118, 2, 3, 7, 12, 14, 15, 16, 18, 19, 22, 24, 26, 27, 28, 31, 36, 37, 39, 40, 41, 43, 44, 45, 46, 47, 54, 56, 57, 59, 60, 61, 65, 67, 71, 73, 75, 78, 82, 84, 85, 89, 90, 93, 94, 95, 98, 101, 106, 109, 115, 117, 1, 2, 4, 7, 9, 11, 12, 15, 16, 17, 18, 22, 23, 31, 33, 34, 35, 38, 49, 50, 54, 56, 63, 64, 65, 66, 67, 70, 72, 73, 75, 77, 81, 88, 90, 95, 99, 102, 103, 107, 108, 110, 112, 115, 116, 117, 118, 0, 6, 10, 11, 13, 16, 18, 23, 26, 29, 31, 32, 33, 35, 37, 41, 42, 43, 44, 47, 49, 50, 58, 61, 63, 64, 65, 69, 70, 72, 77, 91, 97, 105, 106, 107, 109, 111, 117, 5, 6, 11, 12, 19, 22, 25, 26, 28, 29, 30, 31, 36, 37, 40, 41, 44, 45, 46, 48, 51, 52, 53, 59, 61, 62, 64, 65, 68, 70, 71, 75, 77, 78, 79, 85, 86, 87, 90, 91, 92, 93, 98, 99, 100, 101, 106, 108, 110, 111, 113, 114, 0, 1, 6, 7, 8, 10, 13, 14, 17, 19, 20, 22, 23, 25, 27, 28, 30, 35, 36, 37, 40, 43, 46, 47, 48, 51, 53, 54, 59, 60, 62, 65, 70, 71, 72, 73, 74, 75, 76, 78, 81, 84, 93, 95, 98, 100, 101, 106, 107, 109, 111, 114, 1, 2, 5, 6, 11, 13, 14, 15, 21, 26, 29, 40, 41, 43, 51, 53, 56, 61, 67, 69, 71, 73, 75, 76, 80, 81, 86, 89, 99, 101, 105, 106, 107, 108, 111, 115, 118, 119, 1, 3, 4, 5, 7, 8, 11, 12, 15, 19, 20, 21, 29, 34, 41, 43, 45, 49, 51, 53, 55, 58, 61, 62, 65, 66, 71, 73, 75, 79, 95, 96, 98, 103, 105, 109, 111, 112, 113, 114, 115, 117, 0, 2, 12, 13, 14, 17, 18, 20, 22, 28, 30, 31, 32, 37, 38, 39, 40, 41, 42, 44, 52, 54, 55, 57, 59, 60, 63, 64, 68, 72, 75, 76, 79, 81, 83, 84, 85, 88, 90, 94, 108, 111, 112, 117, 119, 0, 1, 3, 4, 8, 9, 10, 11, 12, 13, 14, 17, 20, 21, 24, 25, 28, 36, 38, 43, 45, 46, 48, 51, 53, 54, 56, 57, 58, 60, 62, 63, 64, 65, 68, 70, 71, 72, 73, 74, 77, 79, 81, 85, 86, 88, 91, 102, 103, 104, 110, 111, 113, 115, 118, 0, 4, 5, 9, 11, 14, 16, 21, 23, 24, 32, 33, 35, 40, 41, 42, 43, 44, 48, 49, 51, 52, 53, 55, 56, 58, 59, 65, 66, 67, 68, 69, 72, 77, 78, 80, 83, 85, 87, 88, 89, 94, 96, 99, 100, 102, 104, 108, 109, 0, 2, 3, 4, 5, 6, 10, 11, 12, 13, 14, 17, 18, 23, 24, 26, 30, 33, 35, 42, 45, 48, 52, 53, 59, 61, 65, 66, 67, 70, 72, 73, 74, 75, 78, 82, 87, 90, 91, 92, 94, 97, 100, 103, 104, 107, 108, 109, 114, 115, 116, 119, 1, 6, 7, 9, 11, 17, 18, 20, 21, 24, 25, 27, 29, 30, 32, 33, 34, 35, 36, 41, 43, 46, 51, 59, 63, 66, 70, 72, 73, 74, 77, 78, 86, 88, 91, 92, 93, 94, 95, 96, 100, 106, 112, 114, 115, 116, 117, 119, 4, 5, 6, 10, 13, 16, 17, 18, 20, 22, 26, 29, 30, 31, 34, 35, 37, 40, 42, 43, 44, 45, 47, 49, 50, 51, 52, 54, 58, 61, 65, 68, 70, 71, 76, 78, 80, 83, 85, 86, 87, 91, 92, 94, 95, 101, 107, 112, 113, 115, 116, 118, 7, 10, 11, 16, 17, 18, 19, 20, 23, 25, 28, 31, 33, 35, 37, 38, 39, 48, 49, 51, 55, 57, 58, 59, 66, 69, 71, 75, 79, 80, 82, 87, 88, 89, 91, 92, 94, 98, 100, 101, 102, 104, 107, 108, 109, 110, 111, 118, 119, 5, 7, 12, 16, 20, 22, 31, 32, 36, 37, 41, 44, 45, 47, 48, 49, 50, 54, 55, 58, 62, 63, 64, 65, 66, 69, 71, 72, 73, 74, 80, 81, 82, 84, 85, 89, 99, 111, 112, 116, 118, 119, 4, 11, 12, 13, 17, 20, 21, 24, 25, 28, 29, 30, 33, 37, 40, 44, 45, 46, 47, 48, 49, 50, 52, 53, 57, 58, 64, 66, 68, 70, 78, 79, 80, 88, 89, 91, 92, 95, 96, 101, 103, 105, 106, 107, 108, 111, 114, 115, 116, 119, 0, 1, 2, 5, 12, 16, 18, 20, 22, 25, 27, 28, 29, 31, 33, 34, 39, 40, 42, 43, 44, 45, 48, 49, 51, 53, 54, 55, 56, 60, 62, 65, 67, 74, 76, 80, 81, 83, 88, 90, 91, 94, 98, 99, 108, 113, 114, 118, 1, 2, 12, 15, 17, 19, 20, 22, 23, 26, 29, 32, 33, 36, 40, 43, 46, 47, 49, 51, 53, 55, 60, 61, 62, 64, 65, 67, 69, 71, 75, 76, 77, 78, 83, 87, 88, 89, 92, 94, 96, 97, 99, 101, 110, 111, 113, 115, 118, 2, 3, 4, 5, 8, 9, 25, 27, 28, 29, 30, 33, 34, 38, 42, 43, 46, 49, 50, 51, 52, 54, 56, 57, 59, 62, 71, 73, 75, 77, 80, 81, 82, 84, 90, 92, 95, 99, 100, 103, 104, 106, 112, 115, 118, 0, 1, 3, 4, 9, 13, 17, 18, 21, 23, 24, 25, 27, 28, 33, 35, 42, 43, 44, 47, 48, 49, 52, 53, 56, 58, 60, 65, 66, 68, 72, 73, 74, 75, 77, 79, 81, 83, 84, 86, 89, 92, 96, 97, 100, 101, 102, 103, 104, 105, 106, 110, 113, 116, 119, 4, 10, 11, 12, 14, 15, 17, 21, 26, 29, 32, 33, 34, 35, 36, 37, 40, 41, 43, 46, 48, 49, 50, 51, 52, 53, 57, 60, 62, 63, 64, 67, 68, 70, 71, 74, 77, 79, 80, 82, 83, 87, 90, 91, 96, 97, 98, 99, 100, 101, 104, 108, 109, 112, 113, 114, 115, 117, 119, 1, 2, 4, 5, 6, 8, 10, 11, 12, 14, 15, 16, 17, 18, 20, 24, 25, 27, 29, 30, 32, 35, 39, 42, 46, 50, 52, 59, 61, 65, 68, 70, 72, 73, 74, 76, 77, 81, 84, 88, 89, 91, 93, 97, 98, 99, 105, 107, 108, 110, 111, 112, 0, 2, 5, 7, 9, 10, 12, 19, 20, 23, 25, 26, 29, 33, 35, 39, 42, 45, 46, 48, 49, 52, 53, 58, 59, 62, 66, 67, 69, 75, 76, 80, 82, 83, 90, 91, 93, 94, 95, 98, 99, 100, 101, 103, 104, 106, 108, 112, 118, 119, 4, 7, 10, 11, 12, 14, 19, 20, 21, 22, 26, 28, 29, 32, 35, 38, 39, 40, 42, 55, 65, 69, 70, 73, 74, 80, 84, 89, 90, 95, 97, 98, 99, 100, 104, 107, 108, 111, 114, 117, 119, 1, 5, 6, 7, 10, 12, 18, 20, 21, 24, 30, 33, 35, 36, 37, 41, 43, 45, 47, 52, 53, 60, 61, 63, 70, 71, 73, 75, 78, 79, 80, 82, 84, 85, 91, 92, 93, 94, 98, 102, 103, 106, 108, 109, 111, 114, 117, 118, 3, 5, 6, 12, 17, 19, 20, 23, 25, 26, 29, 30, 34, 35, 37, 41, 44, 46, 47, 57, 62, 67, 68, 69, 73, 76, 77, 80, 83, 84, 86, 94, 95, 98, 101, 107, 109, 111, 115, 119, 0, 1, 2, 5, 6, 13, 17, 20, 21, 26, 27, 28, 30, 31, 34, 35, 36, 40, 45, 46, 47, 49, 51, 56, 59, 60, 61, 64, 66, 67, 70, 71, 72, 75, 76, 78, 80, 81, 84, 85, 88, 93, 95, 96, 100, 101, 102, 108, 109, 111, 113, 116, 119, 1, 2, 9, 12, 15, 18, 21, 22, 29, 35, 37, 40, 41, 44, 45, 48, 49, 52, 54, 60, 61, 64, 65, 67, 68, 73, 74, 77, 80, 81, 83, 89, 90, 93, 99, 102, 103, 106, 110, 113, 116, 118, 1, 2, 3, 5, 8, 10, 17, 21, 22, 24, 27, 30, 31, 34, 36, 37, 38, 42, 46, 47, 48, 49, 51, 55, 57, 58, 62, 63, 64, 68, 75, 78, 80, 81, 84, 89, 90, 91, 93, 94, 95, 96, 97, 98, 99, 102, 103, 105, 106, 107, 113, 116, 117, 118, 119, 5, 7, 9, 11, 14, 16, 17, 19, 20, 23, 24, 27, 29, 34, 37, 38, 39, 41, 46, 49, 51, 53, 57, 60, 62, 64, 65, 70, 71, 78, 79, 83, 84, 85, 87, 91, 94, 95, 96, 101, 102, 105, 107, 112, 113, 114, 118, 6, 8, 12, 14, 15, 17, 21, 25, 26, 33, 34, 37, 38, 39, 40, 42, 43, 44, 47, 49, 50, 51, 52, 53, 54, 55, 57, 59, 60, 62, 65, 68, 69, 70, 73, 84, 86, 87, 91, 97, 100, 103, 104, 106, 107, 114, 118, 1, 3, 5, 7, 9, 10, 12, 13, 17, 18, 19, 20, 21, 24, 25, 27, 28, 29, 30, 31, 35, 37, 38, 39, 40, 41, 43, 51, 52, 56, 58, 62, 63, 65, 67, 70, 72, 76, 82, 84, 85, 92, 93, 95, 97, 98, 100, 102, 104, 107, 110, 116, 117, 118, 0, 6, 8, 9, 10, 11, 18, 20, 21, 22, 28, 33, 40, 42, 44, 45, 46, 47, 53, 59, 60, 61, 62, 63, 65, 67, 68, 69, 70, 71, 72, 73, 74, 78, 82, 88, 90, 94, 96, 97, 100, 101, 103, 106, 109, 110, 113, 116, 117, 0, 1, 2, 4, 5, 6, 7, 9, 13, 16, 17, 19, 20, 21, 22, 23, 27, 28, 36, 37, 38, 42, 44, 46, 49, 50, 54, 55, 58, 61, 65, 66, 67, 69, 73, 75, 77, 79, 82, 86, 89, 92, 93, 94, 101, 103, 104, 106, 109, 110, 112, 113, 114, 119, 3, 8, 10, 12, 19, 22, 23, 26, 28, 29, 31, 36, 37, 38, 40, 43, 48, 49, 50, 56, 61, 63, 66, 68, 73, 75, 76, 78, 80, 82, 83, 86, 87, 90, 92, 95, 99, 100, 106, 108, 114, 116, 119, 2, 3, 5, 8, 9, 10, 11, 12, 20, 23, 24, 26, 31, 32, 36, 38, 40, 47, 48, 49, 50, 55, 58, 59, 60, 61, 62, 69, 71, 73, 74, 76, 78, 82, 83, 88, 89, 92, 93, 94, 98, 101, 102, 105, 107, 111, 115, 3, 5, 7, 9, 10, 12, 13, 14, 18, 24, 27, 28, 29, 32, 34, 40, 41, 48, 49, 53, 61, 64, 66, 72, 73, 84, 86, 89, 90, 92, 93, 94, 100, 101, 104, 106, 107, 108, 109, 113, 114, 117, 119, 0, 3, 5, 7, 9, 10, 12, 13, 14, 15, 16, 21, 22, 24, 27, 31, 32, 33, 34, 35, 36, 41, 42, 44, 45, 46, 48, 49, 52, 53, 54, 55, 56, 57, 60, 64, 65, 66, 68, 70, 71, 74, 85, 86, 88, 89, 90, 96, 99, 105, 107, 109, 112, 118, 119, 2, 7, 9, 10, 11, 13, 16, 17, 18, 21, 24, 26, 27, 31, 32, 34, 35, 38, 43, 46, 50, 51, 57, 59, 60, 61, 65, 66, 67, 68, 69, 70, 71, 73, 74, 78, 80, 82, 83, 84, 90, 91, 96, 99, 101, 102, 107, 109, 110, 111, 113, 114, 0, 4, 6, 9, 14, 15, 19, 21, 24, 27, 31, 34, 40, 44, 45, 54, 56, 59, 61, 64, 65, 68, 72, 75, 76, 79, 81, 82, 83, 85, 86, 87, 91, 98, 100, 102, 103, 106, 107, 108, 109, 111, 112, 113, 114, 115, 117, 2, 7, 10, 11, 14, 15, 17, 20, 23, 27, 30, 31, 32, 35, 36, 38, 41, 42, 44, 46, 48, 53, 54, 56, 61, 62, 63, 64, 68, 71, 74, 77, 79, 84, 88, 89, 90, 92, 94, 99, 104, 105, 107, 113, 1, 3, 5, 8, 10, 11, 18, 20, 21, 23, 26, 31, 32, 34, 37, 38, 44, 46, 50, 57, 60, 64, 68, 69, 70, 72, 78, 80, 83, 87, 88, 92, 96, 97, 100, 101, 102, 105, 111, 112, 115, 118, 11, 13, 15, 16, 17, 25, 27, 29, 35, 36, 40, 41, 45, 46, 48, 51, 52, 55, 56, 58, 59, 63, 64, 67, 68, 69, 72, 73, 74, 77, 80, 88, 89, 95, 96, 101, 102, 104, 106, 107, 109, 111, 113, 114, 115, 116, 117, 1, 2, 4, 5, 8, 9, 11, 14, 16, 17, 19, 20, 21, 24, 27, 30, 31, 32, 34, 38, 40, 41, 43, 44, 46, 47, 52, 54, 55, 61, 64, 65, 67, 69, 70, 71, 77, 78, 81, 82, 86, 89, 93, 94, 101, 106, 107, 109, 110, 111, 117, 118, 4, 5, 7, 10, 14, 18, 19, 21, 23, 24, 26, 27, 35, 41, 43, 48, 49, 53, 54, 56, 57, 60, 62, 63, 66, 67, 69, 72, 76, 79, 81, 82, 84, 86, 87, 88, 91, 92, 95, 101, 105, 107, 108, 112, 117, 119, 2, 3, 7, 9, 12, 17, 22, 24, 32, 37, 38, 44, 46, 50, 54, 55, 57, 58, 60, 61, 62, 67, 72, 74, 76, 83, 84, 85, 86, 87, 88, 91, 93, 94, 96, 98, 100, 103, 104, 109, 114, 116, 119, 4, 5, 7, 8, 10, 13, 16, 18, 21, 25, 26, 27, 28, 32, 36, 37, 42, 43, 45, 51, 53, 54, 57, 58, 59, 60, 62, 63, 72, 75, 78, 81, 87, 99, 101, 104, 108, 109, 111, 112, 114, 115, 116, 117, 118, 119, 1, 2, 3, 4, 6, 9, 14, 17, 18, 19, 20, 22, 24, 26, 27, 28, 31, 32, 38, 39, 41, 42, 45, 48, 50, 52, 54, 56, 60, 61, 63, 66, 67, 68, 69, 70, 73, 74, 75, 76, 77, 79, 81, 82, 84, 85, 87, 88, 91, 93, 97, 99, 103, 105, 106, 112, 113, 119, 0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 14, 19, 24, 25, 28, 29, 31, 32, 37, 39, 41, 42, 43, 44, 45, 47, 48, 56, 57, 59, 62, 64, 68, 69, 72, 82, 86, 89, 91, 94, 95, 96, 98, 100, 102, 106, 113, 114, 118, 3, 5, 6, 8, 9, 10, 13, 20, 23, 34, 35, 37, 39, 40, 44, 45, 47, 55, 61, 62, 63, 67, 69, 72, 75, 77, 78, 84, 85, 87, 90, 91, 94, 97, 98, 106, 108, 111, 112, 113, 114, 117, 119, 1, 3, 5, 6, 7, 8, 9, 21, 23, 24, 26, 27, 28, 31, 34, 35, 36, 40, 42, 43, 47, 49, 50, 60, 66, 68, 69, 70, 72, 75, 78, 79, 81, 82, 85, 87, 91, 92, 94, 97, 98, 100, 105, 107, 108, 109, 111, 112, 119, 0, 4, 5, 6, 7, 10, 13, 18, 19, 21, 28, 30, 32, 33, 39, 40, 41, 45, 46, 53, 55, 58, 61, 62, 63, 67, 71, 72, 73, 79, 80, 81, 84, 85, 86, 90, 91, 92, 93, 94, 98, 100, 102, 104, 107, 108, 110, 113, 117, 2, 3, 5, 6, 7, 9, 10, 12, 16, 18, 21, 22, 24, 25, 29, 30, 31, 33, 37, 39, 49, 50, 51, 52, 53, 55, 56, 57, 59, 68, 70, 71, 72, 77, 78, 80, 82, 84, 87, 90, 91, 96, 99, 101, 102, 108, 110, 111, 118, 119, 1, 7, 9, 12, 13, 14, 15, 17, 18, 20, 25, 31, 32, 37, 38, 39, 45, 47, 48, 57, 59, 61, 62, 65, 66, 67, 71, 76, 77, 81, 82, 86, 87, 91, 97, 98, 100, 105, 107, 108, 109, 112, 115, 116, 117, 0, 3, 14, 19, 28, 29, 30, 37, 38, 40, 41, 42, 44, 45, 46, 49, 51, 57, 58, 60, 61, 66, 67, 73, 74, 79, 81, 86, 89, 90, 95, 96, 97, 101, 104, 108, 111, 112, 114, 116, 118, 119, 4, 9, 15, 24, 26, 30, 31, 33, 35, 41, 43, 45, 46, 47, 49, 50, 52, 54, 59, 60, 70, 75, 82, 90, 91, 92, 96, 101, 102, 106, 110, 111, 112, 113, 114, 116, 118, 2, 6, 9, 11, 12, 14, 17, 20, 21, 23, 25, 26, 27, 28, 29, 30, 31, 33, 35, 36, 38, 40, 42, 46, 48, 49, 50, 51, 52, 55, 59, 60, 61, 62, 63, 66, 71, 75, 76, 78, 80, 84, 85, 86, 88, 91, 92, 94, 96, 97, 101, 104, 105, 106, 107, 108, 110, 113, 115, 117, 0, 3, 10, 11, 20, 22, 23, 28, 29, 31, 36, 37, 39, 43, 44, 45, 46, 51, 55, 59, 62, 67, 68, 70, 71, 76, 81, 82, 85, 90, 100, 101, 103, 106, 108, 109, 116, 0, 4, 7, 10, 19, 22, 23, 26, 30, 32, 35, 36, 45, 47, 50, 58, 60, 61, 62, 64, 66, 68, 69, 71, 76, 77, 79, 81, 84, 87, 92, 96, 99, 107, 111, 113, 115, 0, 1, 4, 11, 20, 22, 25, 29, 30, 36, 37, 40, 42, 43, 44, 46, 47, 49, 50, 51, 53, 54, 56, 58, 65, 66, 67, 74, 77, 87, 92, 99, 100, 106, 113, 0, 1, 5, 6, 7, 9, 11, 12, 13, 14, 16, 17, 21, 24, 30, 32, 34, 35, 38, 46, 49, 56, 59, 61, 64, 67, 69, 71, 72, 73, 74, 75, 79, 81, 89, 90, 99, 104, 108, 110, 115, 117, 119, 2, 5, 7, 9, 12, 14, 16, 19, 20, 29, 31, 38, 42, 44, 45, 49, 50, 55, 65, 66, 69, 73, 74, 84, 91, 92, 95, 96, 101, 102, 103, 104, 105, 110, 116, 119, 0, 1, 3, 4, 7, 10, 13, 14, 16, 20, 24, 26, 29, 30, 32, 36, 41, 42, 43, 44, 46, 49, 53, 55, 56, 57, 61, 63, 67, 69, 70, 73, 75, 76, 77, 86, 87, 89, 91, 93, 94, 96, 97, 98, 99, 100, 105, 106, 108, 109, 110, 111, 113, 1, 5, 6, 12, 13, 18, 26, 28, 30, 31, 32, 33, 34, 35, 36, 39, 40, 41, 44, 46, 48, 52, 53, 63, 66, 68, 73, 74, 76, 80, 82, 86, 87, 88, 90, 91, 92, 94, 96, 102, 103, 104, 105, 106, 111, 113, 1, 2, 3, 6, 7, 12, 14, 15, 18, 23, 26, 35, 37, 38, 40, 41, 42, 46, 49, 51, 52, 56, 57, 59, 63, 71, 78, 81, 85, 86, 87, 94, 96, 99, 107, 112, 115, 0, 1, 2, 3, 4, 7, 9, 11, 13, 14, 18, 20, 21, 22, 24, 30, 35, 40, 46, 47, 48, 49, 50, 52, 56, 59, 62, 63, 64, 65, 66, 69, 71, 73, 74, 76, 81, 91, 96, 99, 100, 103, 104, 105, 108, 109, 111, 112, 113, 114, 115, 118, 1, 2, 4, 10, 11, 12, 19, 23, 27, 30, 32, 33, 34, 39, 41, 48, 49, 51, 52, 53, 54, 55, 57, 62, 63, 68, 70, 74, 78, 81, 82, 83, 88, 89, 91, 92, 94, 96, 97, 100, 101, 102, 104, 106, 109, 112, 114, 115, 116, 2, 8, 9, 12, 15, 16, 20, 21, 22, 23, 28, 33, 34, 36, 51, 53, 56, 64, 65, 67, 68, 69, 76, 80, 81, 84, 89, 93, 94, 96, 100, 103, 106, 109, 111, 113, 115, 117, 118, 119, 0, 2, 3, 4, 6, 8, 9, 10, 21, 24, 28, 29, 32, 33, 37, 45, 47, 49, 54, 55, 56, 57, 61, 65, 68, 69, 71, 75, 76, 77, 78, 79, 82, 83, 85, 86, 89, 90, 94, 96, 102, 103, 104, 105, 108, 109, 110, 112, 115, 116, 0, 7, 9, 11, 12, 18, 19, 21, 25, 27, 28, 34, 37, 40, 50, 52, 53, 55, 56, 58, 60, 61, 62, 64, 69, 73, 74, 75, 76, 77, 80, 82, 83, 86, 88, 91, 93, 97, 102, 103, 105, 107, 109, 112, 116, 117, 118, 2, 4, 6, 12, 13, 16, 18, 20, 21, 28, 30, 33, 34, 37, 40, 43, 44, 46, 48, 52, 55, 59, 67, 68, 70, 74, 75, 76, 77, 80, 81, 83, 86, 87, 89, 91, 92, 95, 96, 97, 98, 101, 102, 103, 104, 107, 109, 114, 116, 117, 118, 1, 4, 7, 10, 11, 12, 17, 19, 20, 23, 25, 26, 27, 29, 32, 33, 36, 37, 39, 43, 45, 46, 48, 49, 55, 57, 65, 71, 78, 79, 81, 82, 84, 86, 87, 88, 90, 92, 95, 104, 107, 112, 114, 116, 119, 8, 9, 12, 13, 14, 18, 19, 20, 21, 22, 23, 28, 36, 37, 38, 40, 45, 46, 51, 55, 58, 60, 62, 63, 65, 66, 67, 71, 72, 76, 85, 87, 88, 90, 92, 93, 99, 100, 101, 102, 103, 104, 108, 110, 1, 2, 3, 6, 13, 14, 17, 22, 25, 26, 29, 31, 34, 41, 42, 45, 46, 53, 54, 62, 63, 64, 75, 76, 86, 88, 89, 90, 91, 93, 94, 100, 101, 103, 106, 108, 110, 112, 117, 119, 1, 2, 4, 5, 10, 11, 13, 15, 16, 17, 22, 25, 28, 30, 35, 37, 40, 45, 48, 52, 53, 55, 61, 63, 74, 75, 79, 82, 84, 89, 90, 91, 93, 94, 95, 97, 98, 99, 105, 110, 111, 118, 119, 0, 1, 2, 4, 6, 8, 10, 14, 17, 19, 20, 22, 24, 25, 27, 29, 30, 38, 39, 40, 43, 48, 53, 54, 58, 59, 63, 65, 68, 70, 77, 78, 79, 83, 84, 85, 86, 91, 96, 97, 99, 101, 102, 104, 107, 110, 112, 114, 118, 119, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 18, 19, 20, 23, 24, 26, 28, 29, 32, 35, 36, 38, 41, 47, 52, 55, 59, 61, 65, 66, 73, 75, 77, 79, 81, 82, 83, 84, 98, 99, 106, 108, 109, 110, 112, 114, 116, 117, 118, 2, 6, 9, 11, 14, 21, 22, 27, 29, 30, 34, 35, 39, 42, 51, 54, 55, 56, 57, 59, 62, 63, 65, 68, 69, 71, 72, 73, 75, 77, 79, 80, 81, 82, 83, 87, 90, 93, 95, 98, 100, 101, 102, 106, 109, 110, 115, 117, 118, 119, 1, 4, 5, 9, 15, 16, 17, 32, 33, 34, 35, 36, 37, 41, 47, 51, 55, 57, 61, 64, 65, 67, 68, 70, 71, 72, 73, 77, 78, 82, 84, 86, 92, 94, 103, 105, 106, 109, 111, 112, 115, 119, 6, 8, 11, 13, 17, 19, 20, 21, 26, 28, 29, 32, 37, 38, 45, 47, 48, 49, 50, 52, 55, 56, 58, 64, 68, 70, 71, 79, 81, 82, 84, 87, 88, 89, 91, 93, 99, 100, 101, 108, 109, 111, 112, 113, 115, 117, 2, 5, 6, 7, 8, 11, 15, 16, 17, 18, 20, 21, 29, 31, 32, 35, 36, 39, 41, 42, 44, 46, 49, 50, 55, 57, 62, 63, 65, 68, 69, 70, 71, 72, 77, 81, 82, 93, 95, 96, 99, 100, 108, 109, 111, 113, 115, 117, 0, 5, 7, 9, 15, 19, 21, 23, 24, 25, 27, 31, 35, 37, 41, 43, 44, 47, 50, 53, 55, 61, 68, 76, 77, 82, 83, 84, 86, 88, 89, 95, 97, 100, 102, 104, 109, 111, 112, 118, 0, 2, 4, 6, 10, 12, 13, 17, 18, 19, 22, 23, 30, 31, 32, 33, 35, 42, 44, 45, 51, 52, 58, 59, 60, 61, 63, 66, 68, 70, 76, 78, 79, 81, 85, 86, 89, 90, 95, 97, 98, 100, 101, 102, 104, 105, 106, 108, 109, 110, 112, 115, 2, 5, 7, 8, 12, 13, 14, 15, 16, 17, 20, 21, 26, 27, 39, 40, 41, 44, 45, 47, 49, 53, 58, 59, 62, 66, 69, 71, 73, 81, 82, 84, 89, 90, 91, 92, 93, 97, 100, 101, 106, 107, 113, 116, 117, 119, 0, 2, 3, 4, 7, 15, 17, 21, 30, 31, 32, 36, 40, 41, 45, 50, 53, 55, 56, 58, 65, 68, 71, 72, 75, 79, 81, 83, 84, 89, 91, 102, 105, 106, 109, 110, 112, 116, 118, 119, 5, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 19, 20, 21, 22, 23, 25, 27, 32, 37, 40, 50, 53, 57, 59, 63, 64, 67, 70, 72, 73, 76, 85, 86, 94, 96, 97, 98, 103, 111, 112, 114, 119, 2, 4, 7, 8, 10, 13, 16, 18, 20, 21, 25, 27, 33, 34, 37, 38, 40, 41, 48, 50, 51, 52, 55, 57, 58, 62, 64, 67, 68, 70, 72, 78, 81, 83, 84, 85, 93, 95, 97, 100, 101, 103, 111, 115, 118, 1, 2, 3, 8, 9, 11, 12, 14, 17, 20, 21, 22, 25, 26, 29, 31, 34, 35, 36, 43, 47, 48, 50, 51, 53, 58, 60, 63, 65, 68, 70, 77, 78, 81, 82, 85, 88, 92, 96, 98, 99, 102, 105, 108, 109, 110, 112, 116, 2, 4, 14, 15, 18, 19, 22, 23, 24, 26, 27, 28, 30, 33, 34, 36, 38, 40, 42, 46, 48, 50, 53, 63, 70, 71, 80, 81, 84, 86, 89, 95, 100, 101, 104, 105, 106, 108, 109, 111, 114, 115, 118, 1, 2, 4, 5, 8, 10, 11, 12, 18, 23, 24, 28, 29, 30, 32, 34, 43, 48, 50, 54, 57, 59, 62, 74, 79, 83, 85, 86, 91, 95, 96, 103, 104, 106, 107, 110, 111, 112, 113, 115, 119, 1, 4, 5, 10, 11, 13, 14, 17, 18, 28, 36, 38, 39, 40, 41, 42, 43, 46, 49, 57, 60, 62, 65, 67, 68, 69, 74, 81, 84, 85, 86, 88, 89, 90, 93, 94, 96, 103, 105, 107, 109, 114, 0, 1, 3, 4, 5, 14, 18, 22, 23, 29, 31, 32, 33, 35, 36, 37, 41, 42, 45, 46, 50, 52, 53, 54, 56, 57, 59, 63, 64, 66, 67, 70, 71, 73, 74, 75, 76, 78, 81, 93, 95, 97, 101, 102, 103, 106, 108, 112, 115, 117, 6, 7, 12, 14, 18, 23, 26, 28, 29, 30, 32, 38, 39, 40, 42, 48, 52, 54, 57, 58, 62, 63, 68, 78, 79, 94, 99, 100, 103, 104, 105, 106, 107, 108, 109, 115, 117, 118, 119, 0, 2, 3, 6, 7, 12, 16, 19, 20, 22, 23, 26, 27, 32, 33, 34, 35, 38, 40, 48, 51, 54, 56, 59, 61, 62, 65, 66, 69, 71, 75, 76, 77, 78, 80, 81, 82, 84, 85, 87, 88, 90, 91, 93, 94, 101, 102, 103, 104, 105, 107, 113, 114, 118, 119, 0, 1, 3, 4, 8, 12, 14, 16, 18, 19, 21, 24, 27, 29, 30, 31, 33, 34, 38, 41, 48, 51, 53, 54, 57, 58, 59, 60, 63, 68, 71, 73, 83, 86, 88, 89, 91, 92, 95, 96, 100, 103, 105, 106, 112, 3, 5, 8, 10, 11, 12, 13, 14, 17, 19, 20, 21, 23, 26, 28, 30, 32, 34, 35, 36, 43, 46, 47, 48, 50, 54, 58, 63, 65, 66, 71, 74, 76, 78, 81, 82, 83, 84, 86, 88, 89, 91, 93, 94, 95, 98, 99, 100, 104, 106, 108, 111, 114, 116, 119, 2, 10, 14, 16, 17, 18, 21, 26, 33, 40, 41, 42, 45, 46, 47, 49, 57, 60, 61, 62, 64, 66, 68, 74, 76, 77, 78, 82, 88, 93, 95, 96, 99, 102, 104, 107, 108, 112, 114, 116, 118, 119, 1, 2, 7, 11, 15, 16, 19, 20, 26, 27, 30, 35, 39, 40, 44, 47, 49, 50, 55, 56, 58, 59, 61, 65, 67, 68, 69, 72, 75, 78, 81, 83, 88, 89, 93, 94, 95, 98, 99, 100, 102, 103, 105, 111, 115, 117, 119, 0, 2, 3, 7, 13, 15, 18, 23, 28, 29, 30, 34, 35, 37, 43, 44, 48, 50, 54, 60, 61, 63, 64, 70, 72, 77, 79, 81, 83, 86, 90, 91, 92, 93, 95, 98, 101, 102, 104, 105, 106, 107, 109, 115, 116, 117, 118, 119, 1, 2, 4, 7, 9, 14, 17, 22, 23, 26, 27, 30, 33, 34, 35, 36, 39, 43, 44, 48, 50, 52, 56, 62, 66, 70, 71, 74, 75, 80, 81, 82, 83, 84, 85, 86, 87, 89, 90, 92, 97, 102, 105, 107, 108, 111, 112, 114, 116, 117, 118, 119, 0, 1, 3, 5, 6, 7, 8, 9, 16, 19, 20, 24, 27, 29, 31, 38, 39, 43, 47, 48, 49, 50, 51, 52, 56, 57, 59, 60, 62, 67, 71, 72, 74, 75, 76, 80, 81, 82, 85, 86, 87, 92, 93, 94, 95, 96, 101, 104, 105, 106, 107, 108, 111, 114, 119, 1, 3, 4, 6, 7, 8, 9, 12, 13, 15, 17, 21, 26, 27, 29, 32, 34, 37, 40, 42, 45, 46, 50, 53, 55, 56, 60, 63, 64, 65, 66, 67, 68, 69, 71, 72, 80, 81, 83, 84, 85, 92, 93, 95, 97, 98, 99, 100, 102, 104, 108, 110, 111, 117, 1, 2, 5, 6, 7, 13, 14, 17, 21, 22, 23, 24, 31, 35, 38, 40, 43, 45, 46, 52, 55, 57, 61, 64, 65, 67, 75, 80, 84, 88, 90, 91, 92, 94, 101, 102, 103, 106, 109, 112, 114, 116, 118, 0, 2, 5, 7, 9, 13, 17, 21, 23, 25, 26, 28, 30, 36, 41, 43, 45, 47, 50, 51, 63, 67, 70, 74, 76, 78, 79, 80, 84, 85, 88, 90, 92, 94, 95, 96, 98, 101, 106, 107, 108, 116, 118, 1, 3, 7, 9, 13, 15, 16, 19, 20, 22, 25, 26, 27, 28, 31, 32, 37, 45, 47, 49, 51, 55, 56, 57, 58, 59, 60, 62, 64, 68, 71, 72, 73, 74, 75, 78, 81, 82, 83, 84, 85, 88, 90, 93, 96, 99, 101, 104, 107, 111, 112, 113, 114, 116, 117, 119, 0, 2, 3, 4, 7, 10, 12, 13, 14, 16, 19, 27, 28, 30, 34, 35, 36, 37, 39, 40, 42, 43, 44, 45, 47, 49, 52, 53, 54, 57, 61, 62, 65, 74, 76, 80, 81, 82, 84, 87, 89, 90, 91, 96, 98, 99, 100, 101, 102, 103, 106, 108, 109, 111, 115, 116, 118, 119, 1, 4, 5, 7, 17, 19, 20, 24, 25, 26, 27, 28, 31, 32, 33, 34, 35, 38, 39, 40, 45, 47, 52, 54, 57, 58, 59, 61, 64, 66, 68, 70, 72, 74, 75, 77, 81, 82, 85, 92, 94, 95, 100, 101, 102, 103, 104, 105, 106, 108, 109, 113, 2, 4, 8, 9, 12, 17, 19, 20, 22, 23, 29, 30, 31, 32, 33, 35, 37, 46, 47, 49, 50, 57, 59, 60, 62, 66, 67, 72, 74, 78, 80, 82, 85, 86, 89, 91, 93, 94, 95, 99, 100, 103, 105, 106, 107, 108, 109, 111, 113, 116, 117, 119, 0, 2, 4, 5, 7, 8, 9, 11, 16, 19, 22, 24, 26, 27, 28, 33, 34, 35, 37, 39, 42, 43, 45, 47, 48, 49, 50, 53, 55, 59, 61, 62, 64, 70, 71, 72, 73, 74, 80, 81, 83, 85, 86, 90, 91, 92, 95, 98, 99, 101, 107, 112, 116, 117, 118, 119, 4, 5, 11, 14, 15, 16, 17, 19, 20, 22, 23, 27, 30, 36, 39, 41, 42, 44, 45, 48, 52, 53, 58, 60, 62, 64, 70, 72, 74, 75, 76, 78, 80, 81, 82, 85, 86, 88, 89, 102, 103, 104, 107, 109, 111, 115, 119, 2, 7, 9, 10, 11, 14, 18, 19, 21, 22, 24, 25, 29, 30, 33, 37, 45, 46, 50, 51, 57, 65, 68, 70, 72, 76, 81, 82, 86, 92, 93, 97, 99, 105, 106, 107, 109, 112, 113, 115, 117, 119, 0, 1, 3, 12, 14, 16, 21, 24, 26, 34, 35, 44, 45, 46, 48, 49, 50, 51, 53, 54, 56, 61, 62, 65, 70, 71, 72, 75, 77, 82, 87, 89, 92, 93, 94, 95, 96, 98, 99, 101, 104, 111, 116, 118, 0, 4, 5, 6, 12, 14, 17, 29, 31, 32, 33, 35, 36, 41, 45, 49, 51, 52, 53, 57, 58, 62, 64, 67, 69, 70, 72, 73, 74, 75, 78, 81, 84, 86, 87, 89, 92, 93, 98, 99, 100, 101, 108, 109, 110, 112, 113, 119, 1, 2, 3, 4, 7, 10, 11, 12, 19, 21, 29, 31, 32, 35, 38, 41, 43, 45, 46, 50, 51, 52, 55, 56, 57, 61, 64, 69, 71, 75, 76, 78, 80, 81, 82, 87, 93, 94, 95, 96, 98, 101, 102, 103, 105, 106, 107, 111, 119, 1, 3, 4, 9, 11, 14, 15, 19, 22, 23, 28, 30, 33, 38, 40, 42, 43, 45, 47, 51, 53, 54, 57, 60, 67, 69, 71, 74, 75, 77, 79, 81, 82, 83, 87, 88, 94, 95, 100, 103, 104, 106, 108, 110, 111, 116, 117, 1, 3, 4, 7, 9, 12, 15, 16, 21, 24, 26, 27, 29, 30, 32, 36, 37, 47, 48, 49, 52, 53, 58, 59, 62, 66, 67, 70, 73, 74, 77, 79, 80, 81, 87, 89, 93, 94, 96, 101, 102, 105, 106, 110, 113, 115, 116, 118, 119, 0, 1, 2, 7, 9, 13, 14, 15, 17, 19, 24, 26, 29, 32, 34, 35, 36, 40, 45, 46, 48, 49, 50, 52, 54, 56, 60, 62, 63, 65, 70, 71, 73, 78, 80, 84, 89, 92, 95, 96, 97, 99, 105, 107, 108, 118, 119, 3, 5, 9, 10, 13, 14, 16, 17, 18, 20, 21, 26, 28, 33, 34, 40, 44, 47, 48, 50, 51, 54, 56, 59, 60, 62, 63, 64, 65, 74, 75, 76, 78, 79, 82, 84, 85, 89, 90, 94, 96, 99, 100, 105, 107, 108, 115, 118, 119, 0, 2, 3, 4, 6, 9, 10, 16, 17, 18, 20, 22, 25, 27, 30, 37, 38, 39, 45, 46, 49, 50, 54, 56, 59, 60, 62, 66, 68, 69, 71, 74, 75, 77, 78, 80, 81, 84, 85, 89, 91, 95, 96, 98, 99, 101, 106, 107, 108, 109, 110, 111, 116, 118, 0, 1, 6, 7, 10, 11, 14, 17, 19, 22, 23, 24, 25, 26, 29, 31, 36, 38, 43, 44, 45, 46, 48, 52, 54, 56, 62, 63, 64, 65, 66, 71, 73, 74, 75, 76, 77, 80, 82, 88, 93, 94, 96, 98, 99, 100, 101, 106, 108, 109, 111, 114, 116, 119, 1, 2, 7, 9, 10, 12, 13, 14, 22, 30, 41, 42, 45, 46, 48, 50, 53, 55, 59, 65, 72, 78, 84, 85, 86, 89, 93, 94, 99, 101, 104, 105, 106, 107, 108, 112, 113, 115, 116, 5, 7, 11, 13, 14, 16, 28, 29, 31, 34, 37, 42, 43, 46, 47, 50, 51, 52, 56, 57, 60, 61, 62, 68, 72, 73, 75, 80, 81, 84, 85, 86, 87, 88, 103, 104, 105, 106, 107, 110, 113, 117, 119, 0, 2, 3, 7, 14, 18, 19, 22, 26, 27, 30, 32, 34, 35, 37, 41, 42, 45, 47, 48, 49, 51, 52, 53, 57, 58, 60, 61, 62, 65, 67, 78, 79, 80, 82, 83, 85, 86, 89, 91, 97, 99, 101, 102, 103, 106, 107, 109, 110, 111, 112, 114, 115, 116, 117, 1, 2, 5, 7, 8, 10, 16, 18, 19, 20, 25, 29, 30, 31, 34, 36, 41, 42, 45, 49, 51, 54, 55, 56, 57, 62, 64, 67, 68, 71, 72, 73, 74, 78, 81, 86, 87, 91, 93, 94, 95, 96, 97, 100, 102, 104, 105, 106, 110, 112, 113, 115, 117, 0, 1, 2, 8, 11, 12, 16, 20, 23, 25, 27, 28, 32, 34, 37, 44, 48, 49, 50, 53, 58, 59, 61, 62, 67, 69, 70, 73, 75, 76, 78, 80, 83, 87, 88, 89, 95, 96, 97, 101, 108, 109, 110, 112, 114, 118, 0, 2, 5, 7, 10, 15, 16, 18, 20, 21, 25, 28, 29, 30, 31, 32, 35, 40, 41, 43, 48, 49, 52, 53, 55, 56, 58, 60, 63, 66, 68, 69, 70, 72, 75, 77, 78, 79, 80, 81, 83, 84, 85, 94, 95, 97, 98, 100, 102, 103, 106, 112, 114, 118, 119, 2, 5, 9, 14, 15, 16, 20, 22, 25, 26, 27, 32, 34, 39, 46, 48, 50, 53, 60, 61, 63, 64, 65, 68, 72, 73, 74, 81, 86, 91, 94, 97, 98, 99, 102, 103, 104, 109, 110, 113, 115, 116, 1, 2, 3, 4, 6, 7, 11, 13, 14, 15, 16, 21, 23, 27, 29, 33, 35, 36, 41, 52, 56, 61, 62, 63, 65, 67, 68, 70, 71, 73, 75, 76, 79, 80, 82, 83, 85, 89, 96, 97, 100, 101, 102, 103, 105, 107, 109, 111, 116, 117, 119, 5, 6, 7, 8, 11, 19, 20, 21, 25, 28, 29, 30, 32, 36, 38, 43, 44, 47, 48, 50, 52, 53, 59, 60, 62, 63, 66, 67, 70, 71, 73, 74, 80, 83, 86, 88, 94, 102, 105, 106, 109, 110, 115, 116, 117, 0, 5, 6, 10, 21, 24, 25, 26, 27, 31, 32, 33, 34, 36, 40, 41, 43, 44, 45, 46, 52, 56, 58, 60, 65, 67, 68, 69, 72, 73, 76, 77, 82, 84, 86, 89, 92, 93, 96, 100, 105, 110, 111, 113, 116, 119, 0, 5, 6, 7, 10, 13, 14, 16, 17, 19, 22, 25, 27, 28, 29, 31, 34, 38, 39, 40, 42, 43, 47, 48, 51, 54, 55, 56, 57, 58, 60, 63, 66, 71, 73, 75, 77, 78, 79, 80, 82, 83, 87, 91, 92, 93, 95, 103, 105, 110, 111, 114, 118, 119, 3, 8, 10, 12, 14, 15, 16, 19, 21, 22, 23, 26, 30, 31, 32, 33, 35, 38, 39, 40, 41, 43, 44, 45, 50, 51, 53, 55, 56, 57, 58, 65, 66, 67, 68, 69, 71, 73, 75, 78, 79, 81, 83, 85, 86, 90, 92, 94, 97, 98, 100, 102, 106, 110, 111, 117, 118, 1, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 22, 23, 24, 27, 28, 30, 32, 39, 40, 42, 44, 45, 48, 52, 55, 56, 57, 60, 61, 62, 63, 68, 70, 75, 76, 79, 81, 86, 88, 91, 95, 96, 97, 102, 103, 104, 109, 111, 112, 116, 117, 0, 2, 4, 13, 14, 17, 23, 24, 25, 26, 31, 33, 37, 38, 39, 45, 46, 47, 49, 52, 59, 61, 64, 65, 70, 71, 72, 73, 75, 78, 79, 81, 82, 89, 94, 96, 97, 98, 102, 105, 108, 111, 113, 0, 1, 3, 5, 17, 18, 20, 21, 26, 30, 32, 35, 41, 43, 45, 47, 49, 52, 53, 55, 56, 60, 64, 66, 68, 70, 72, 73, 75, 82, 83, 84, 88, 90, 93, 94, 99, 100, 105, 106, 107, 109, 112, 115, 117, 118, 119, 1, 3, 10, 13, 16, 19, 22, 26, 27, 28, 31, 32, 35, 36, 39, 42, 46, 48, 49, 51, 54, 56, 63, 64, 66, 67, 68, 69, 71, 73, 74, 77, 80, 81, 83, 84, 88, 99, 100, 101, 103, 105, 108, 111, 112, 118, 119, 2, 3, 5, 6, 8, 12, 13, 14, 16, 23, 26, 27, 38, 39, 42, 46, 47, 50, 52, 53, 54, 55, 56, 57, 69, 74, 76, 77, 78, 79, 85, 86, 87, 88, 90, 95, 97, 98, 99, 100, 101, 104, 111, 114, 115, 117, 2, 3, 4, 6, 12, 20, 22, 23, 26, 31, 35, 38, 39, 41, 47, 58, 59, 61, 64, 67, 68, 69, 70, 72, 73, 76, 79, 81, 83, 84, 85, 90, 91, 93, 95, 97, 110, 111, 114, 117, 0, 5, 7, 10, 13, 16, 18, 20, 21, 23, 24, 27, 29, 30, 35, 39, 40, 43, 45, 46, 49, 57, 61, 63, 66, 67, 69, 70, 72, 73, 74, 75, 79, 81, 84, 85, 91, 94, 95, 97, 98, 100, 101, 102, 103, 105, 107, 111, 112, 113, 114, 116, 3, 4, 5, 7, 8, 13, 15, 17, 21, 27, 33, 39, 40, 41, 43, 45, 47, 49, 53, 55, 56, 57, 59, 64, 69, 70, 73, 74, 75, 76, 77, 78, 81, 83, 85, 89, 92, 93, 97, 99, 100, 101, 103, 104, 106, 111, 112, 114, 116, 118, 5, 8, 9, 14, 16, 17, 19, 24, 28, 29, 30, 33, 37, 39, 41, 42, 44, 53, 55, 56, 58, 59, 66, 67, 69, 71, 74, 77, 78, 79, 80, 84, 87, 90, 94, 96, 97, 100, 101, 102, 105, 106, 108, 113, 114, 116, 117, 118, 119, 0, 1, 2, 3, 5, 8, 9, 14, 15, 17, 19, 20, 24, 25, 26, 33, 34, 36, 37, 39, 40, 42, 43, 46, 48, 49, 51, 54, 55, 56, 58, 61, 64, 65, 67, 69, 71, 77, 80, 81, 84, 86, 87, 89, 93, 95, 98, 100, 105, 111, 112, 117, 6, 7, 8, 9, 10, 18, 20, 23, 25, 26, 30, 33, 35, 38, 40, 42, 45, 46, 47, 48, 52, 53, 54, 59, 61, 66, 69, 72, 73, 77, 78, 79, 85, 88, 90, 94, 98, 99, 103, 106, 107, 110, 114, 115, 116, 118, 119, 0, 1, 5, 6, 10, 14, 15, 16, 19, 20, 21, 29, 31, 34, 35, 38, 40, 42, 45, 50, 52, 53, 57, 58, 59, 60, 62, 65, 68, 69, 70, 71, 72, 73, 75, 77, 80, 86, 88, 89, 91, 94, 96, 99, 101, 104, 106, 111, 116, 117, 118, 119, 2, 3, 5, 6, 11, 19, 20, 21, 27, 29, 30, 31, 32, 37, 38, 40, 41, 42, 43, 44, 46, 47, 49, 50, 52, 54, 56, 57, 58, 59, 60, 61, 62, 63, 65, 66, 72, 74, 76, 78, 86, 91, 92, 93, 94, 95, 97, 98, 99, 100, 101, 105, 109, 114, 117, 119, 0, 1, 3, 4, 7, 10, 12, 14, 16, 17, 18, 20, 21, 23, 25, 26, 28, 29, 30, 37, 41, 46, 48, 49, 50, 53, 57, 62, 64, 66, 67, 68, 69, 70, 73, 74, 75, 79, 80, 88, 93, 94, 96, 98, 100, 101, 102, 103, 106, 108, 116, 119, 2, 4, 6, 7, 8, 12, 13, 18, 22, 27, 30, 36, 38, 39, 42, 44, 45, 50, 52, 53, 54, 55, 56, 58, 60, 64, 65, 76, 77, 82, 87, 89, 98, 99, 101, 104, 105, 106, 108, 109, 111, 112, 119, 0, 1, 4, 6, 8, 9, 18, 19, 30, 31, 32, 36, 40, 41, 46, 49, 52, 54, 58, 68, 71, 75, 76, 78, 80, 82, 86, 88, 91, 92, 106, 111, 112, 113, 114, 117, 0, 3, 5, 6, 10, 12, 16, 20, 24, 28, 33, 34, 36, 38, 41, 43, 44, 45, 46, 58, 60, 61, 63, 64, 68, 69, 70, 72, 75, 76, 77, 79, 81, 82, 83, 87, 91, 93, 94, 101, 102, 106, 108, 110, 112, 119, 2, 6, 7, 9, 12, 14, 16, 17, 19, 21, 22, 24, 25, 28, 30, 33, 34, 35, 42, 44, 48, 57, 60, 64, 65, 66, 67, 70, 74, 77, 78, 80, 82, 86, 87, 88, 90, 91, 92, 94, 98, 100, 104, 106, 109, 111, 112, 114, 115, 117, 118, 6, 7, 8, 9, 11, 12, 13, 19, 21, 22, 24, 25, 30, 31, 32, 37, 40, 41, 42, 43, 44, 46, 47, 48, 51, 54, 56, 57, 58, 60, 61, 64, 68, 72, 78, 79, 81, 85, 87, 89, 90, 91, 96, 99, 100, 103, 108, 109, 110, 111, 112, 117, 118, 1, 2, 6, 7, 12, 13, 14, 16, 17, 18, 27, 29, 31, 32, 36, 37, 38, 40, 45, 46, 50, 51, 53, 54, 56, 57, 58, 60, 63, 64, 65, 72, 74, 75, 77, 78, 79, 80, 82, 83, 88, 89, 92, 96, 97, 107, 109, 112, 113, 115, 8, 10, 12, 14, 23, 24, 27, 28, 32, 34, 35, 37, 39, 40, 41, 42, 43, 44, 45, 46, 51, 52, 54, 57, 65, 66, 69, 71, 72, 75, 77, 79, 83, 84, 85, 86, 90, 93, 94, 95, 98, 100, 101, 103, 106, 109, 110, 119, 2, 4, 5, 6, 9, 10, 11, 17, 18, 19, 22, 23, 27, 29, 30, 36, 40, 47, 48, 52, 55, 58, 59, 63, 64, 70, 72, 73, 74, 77, 86, 93, 95, 97, 99, 101, 104, 108, 109, 113, 114, 1, 2, 3, 5, 6, 11, 12, 18, 21, 27, 29, 33, 37, 39, 42, 44, 46, 47, 48, 51, 56, 62, 63, 73, 74, 75, 81, 82, 90, 93, 102, 103, 104, 105, 106, 108, 109, 115, 116, 119, 0, 1, 2, 3, 4, 8, 10, 14, 16, 19, 20, 25, 27, 28, 32, 39, 40, 45, 48, 52, 53, 55, 58, 60, 61, 62, 67, 68, 70, 71, 72, 73, 74, 76, 80, 82, 85, 86, 91, 95, 98, 100, 102, 104, 105, 107, 110, 111, 113, 116, 117, 119, 2, 3, 6, 8, 9, 11, 13, 16, 20, 22, 23, 24, 25, 26, 27, 29, 34, 36, 42, 43, 45, 46, 50, 51, 52, 53, 60, 61, 65, 67, 68, 72, 75, 76, 78, 82, 83, 86, 89, 93, 96, 97, 98, 101, 103, 107, 111, 112, 115, 119, 1, 2, 4, 6, 11, 14, 16, 17, 20, 21, 24, 25, 26, 28, 30, 31, 33, 35, 37, 40, 41, 43, 48, 50, 52, 56, 59, 61, 62, 64, 71, 72, 73, 74, 79, 80, 82, 83, 84, 85, 86, 88, 91, 92, 93, 95, 96, 109, 111, 112, 113, 115, 116, 117, 118, 2, 4, 11, 12, 18, 20, 24, 25, 27, 29, 32, 36, 43, 44, 47, 49, 51, 55, 58, 60, 61, 62, 63, 64, 66, 69, 70, 77, 79, 81, 82, 84, 92, 93, 94, 97, 99, 103, 107, 109, 110, 115, 116, 118, 1, 3, 6, 11, 16, 20, 21, 24, 25, 29, 31, 34, 36, 40, 41, 48, 50, 51, 52, 60, 64, 69, 76, 78, 80, 84, 87, 92, 95, 97, 101, 104, 108, 109, 114, 115, 116, 118, 3, 4, 6, 9, 12, 14, 16, 17, 24, 27, 28, 30, 32, 35, 37, 38, 40, 41, 42, 47, 49, 50, 51, 52, 56, 59, 61, 64, 65, 67, 72, 75, 76, 78, 80, 81, 84, 86, 88, 101, 103, 104, 105, 107, 114, 115, 0, 7, 8, 11, 17, 18, 23, 25, 26, 27, 30, 33, 37, 39, 40, 42, 44, 45, 50, 51, 52, 53, 54, 55, 59, 61, 62, 64, 71, 72, 75, 76, 78, 79, 81, 87, 92, 94, 95, 96, 99, 100, 101, 107, 108, 111, 114, 0, 2, 3, 5, 7, 10, 15, 16, 17, 19, 21, 25, 27, 30, 32, 33, 34, 35, 39, 42, 45, 56, 59, 63, 64, 65, 66, 68, 76, 78, 79, 80, 84, 85, 89, 90, 91, 92, 95, 101, 104, 108, 109, 110, 113, 115, 117, 118, 0, 2, 3, 8, 10, 14, 16, 17, 18, 29, 36, 39, 40, 45, 46, 48, 49, 51, 54, 56, 57, 58, 62, 63, 64, 68, 69, 72, 73, 75, 80, 81, 82, 83, 86, 87, 95, 102, 103, 106, 107, 110, 111, 113, 0, 4, 5, 9, 13, 16, 17, 19, 26, 27, 28, 30, 31, 33, 37, 39, 40, 41, 44, 45, 46, 47, 48, 49, 50, 58, 60, 61, 64, 70, 71, 76, 78, 84, 90, 92, 93, 95, 96, 97, 101, 107, 110, 114, 115, 116, 118, 0, 2, 6, 7, 9, 12, 14, 17, 19, 20, 21, 22, 23, 25, 29, 30, 34, 37, 44, 45, 46, 49, 56, 62, 63, 65, 67, 68, 76, 81, 82, 84, 85, 87, 88, 92, 93, 98, 104, 108, 109, 114, 116, 119, 0, 3, 6, 11, 14, 15, 16, 17, 18, 21, 23, 24, 29, 30, 33, 34, 36, 38, 39, 42, 43, 48, 51, 55, 59, 64, 65, 68, 69, 70, 72, 74, 77, 80, 81, 85, 89, 90, 91, 92, 94, 96, 97, 98, 102, 104, 108, 109, 111, 113, 114, 115, 117, 0, 2, 3, 5, 8, 10, 11, 14, 15, 21, 23, 24, 25, 33, 35, 38, 41, 42, 44, 45, 46, 48, 50, 54, 56, 58, 62, 63, 67, 69, 70, 74, 76, 77, 79, 86, 88, 89, 94, 96, 97, 99, 102, 103, 104, 105, 106, 107, 108, 111, 112, 114, 118, 119, 2, 3, 5, 8, 9, 13, 16, 17, 19, 20, 21, 22, 25, 27, 30, 31, 33, 34, 36, 37, 40, 41, 42, 43, 44, 45, 46, 48, 49, 53, 54, 55, 57, 58, 60, 62, 63, 65, 67, 70, 71, 72, 73, 78, 79, 80, 81, 85, 86, 100, 102, 103, 104, 105, 106, 107, 108, 109, 110, 112, 114, 116, 117, 118, 119, 2, 5, 6, 7, 8, 10, 18, 19, 22, 23, 33, 42, 44, 46, 49, 50, 51, 53, 55, 56, 58, 59, 61, 62, 64, 70, 72, 73, 77, 78, 84, 85, 86, 89, 91, 92, 94, 95, 97, 99, 101, 107, 108, 110, 112, 115, 116, 119, 3, 4, 6, 11, 15, 16, 17, 19, 27, 30, 31, 33, 34, 37, 45, 47, 48, 50, 57, 60, 62, 63, 65, 71, 72, 76, 80, 81, 91, 93, 97, 100, 104, 105, 111, 113, 114, 116, 119, 3, 5, 8, 9, 12, 13, 14, 16, 18, 19, 21, 23, 27, 30, 32, 34, 38, 40, 43, 47, 49, 50, 52, 53, 54, 56, 59, 64, 66, 74, 76, 77, 78, 79, 80, 81, 84, 85, 86, 88, 89, 90, 91, 98, 101, 107, 109, 119, 1, 5, 7, 8, 9, 10, 13, 19, 20, 23, 25, 27, 29, 30, 31, 32, 34, 36, 38, 39, 43, 44, 48, 51, 52, 57, 61, 63, 64, 65, 67, 74, 79, 86, 87, 94, 96, 99, 106, 107, 108, 114, 116, 117, 118, 119, 1, 4, 5, 9, 11, 15, 18, 20, 21, 24, 25, 26, 28, 29, 30, 33, 34, 36, 40, 44, 51, 55, 56, 61, 62, 63, 65, 66, 68, 70, 71, 73, 74, 76, 78, 80, 82, 84, 88, 89, 90, 100, 101, 103, 108, 110, 1, 2, 3, 6, 7, 8, 9, 12, 17, 18, 21, 22, 27, 28, 29, 35, 37, 38, 41, 45, 50, 58, 64, 69, 72, 76, 80, 83, 86, 89, 90, 91, 92, 93, 95, 96, 97, 101, 103, 106, 109, 110, 117, 1, 3, 11, 14, 16, 21, 23, 26, 28, 29, 31, 32, 33, 34, 36, 38, 42, 44, 47, 48, 51, 61, 62, 63, 64, 67, 73, 77, 79, 81, 82, 85, 86, 89, 95, 102, 103, 107, 110, 111, 114, 115, 116, 117, 119, 0, 4, 6, 10, 11, 12, 14, 15, 23, 35, 36, 37, 40, 41, 48, 50, 51, 52, 53, 54, 56, 57, 58, 59, 61, 62, 66, 67, 69, 72, 75, 81, 88, 90, 93, 94, 97, 98, 100, 104, 105, 107, 109, 110, 114, 117, 0, 1, 5, 8, 12, 14, 17, 19, 20, 24, 25, 26, 31, 33, 34, 35, 38, 39, 40, 42, 43, 46, 54, 56, 57, 59, 62, 64, 65, 67, 68, 70, 73, 76, 78, 79, 80, 82, 83, 87, 91, 97, 99, 106, 108, 109, 112, 115, 119, 1, 2, 3, 8, 9, 12, 13, 15, 17, 18, 20, 27, 28, 30, 33, 34, 35, 36, 37, 40, 42, 44, 48, 52, 57, 60, 61, 62, 63, 65, 77, 80, 81, 83, 84, 86, 87, 89, 90, 92, 93, 94, 95, 96, 104, 105, 107, 111, 119, 0, 2, 3, 5, 6, 10, 12, 16, 18, 20, 21, 22, 24, 26, 27, 28, 34, 35, 36, 38, 39, 43, 44, 45, 49, 51, 52, 59, 61, 62, 64, 67, 68, 69, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 84, 87, 88, 89, 92, 95, 96, 100, 101, 103, 104, 105, 107, 115, 117, 0, 2, 3, 5, 7, 8, 9, 12, 18, 23, 24, 27, 28, 29, 30, 33, 35, 37, 38, 45, 46, 47, 49, 50, 51, 53, 56, 57, 58, 65, 66, 67, 69, 70, 76, 78, 80, 82, 83, 86, 87, 89, 90, 91, 99, 101, 103, 109, 111, 114, 116, 0, 1, 2, 5, 7, 12, 13, 14, 17, 19, 21, 22, 23, 24, 27, 29, 31, 37, 38, 44, 47, 50, 52, 53, 58, 61, 64, 65, 66, 67, 68, 76, 84, 88, 90, 92, 93, 94, 95, 96, 97, 99, 100, 107, 110, 111, 112, 116, 0, 4, 7, 9, 14, 15, 17, 19, 21, 22, 27, 31, 33, 35, 37, 39, 41, 47, 48, 49, 52, 54, 57, 60, 65, 69, 71, 73, 76, 77, 79, 81, 83, 90, 92, 95, 97, 98, 101, 105, 111, 112, 2, 3, 7, 10, 14, 15, 18, 22, 23, 27, 30, 32, 33, 34, 35, 36, 40, 42, 43, 44, 45, 46, 47, 49, 50, 51, 52, 54, 56, 61, 65, 72, 76, 77, 79, 80, 82, 84, 87, 90, 92, 94, 97, 98, 100, 102, 104, 107, 108, 111, 114, 116, 117, 0, 1, 2, 5, 6, 7, 14, 15, 17, 19, 21, 24, 25, 26, 27, 28, 29, 32, 33, 34, 41, 42, 43, 44, 47, 53, 54, 56, 61, 62, 63, 64, 65, 66, 67, 68, 71, 76, 77, 78, 79, 83, 86, 88, 92, 96, 98, 100, 101, 103, 104, 105, 108, 111, 114, 116, 117, 119, 1, 2, 7, 8, 9, 10, 12, 15, 18, 21, 23, 31, 33, 37, 40, 41, 45, 46, 49, 50, 51, 52, 56, 57, 60, 61, 63, 64, 69, 70, 71, 72, 76, 77, 78, 79, 81, 82, 83, 86, 87, 88, 89, 91, 94, 95, 96, 97, 100, 102, 104, 107, 111, 115, 117, 118, 1, 3, 5, 14, 15, 17, 18, 20, 21, 23, 24, 26, 28, 29, 31, 32, 34, 40, 42, 45, 46, 48, 49, 52, 53, 59, 62, 66, 67, 70, 71, 72, 73, 74, 75, 77, 82, 83, 84, 99, 103, 105, 112, 114, 115, 118, 0, 5, 10, 11, 13, 14, 18, 19, 20, 22, 25, 32, 33, 38, 39, 40, 42, 43, 47, 48, 49, 51, 52, 53, 65, 67, 70, 79, 80, 85, 87, 91, 92, 96, 100, 108, 115, 117, 4, 7, 9, 21, 26, 31, 32, 33, 37, 38, 40, 45, 47, 49, 50, 53, 55, 57, 59, 61, 63, 66, 67, 68, 71, 73, 74, 75, 83, 84, 85, 88, 89, 92, 95, 99, 100, 101, 103, 104, 106, 107, 113, 114, 115, 116, 0, 6, 8, 10, 11, 12, 14, 15, 16, 18, 20, 23, 25, 26, 28, 31, 32, 35, 39, 40, 41, 47, 48, 51, 53, 54, 55, 57, 59, 63, 64, 66, 67, 68, 70, 72, 73, 74, 75, 77, 78, 82, 83, 84, 87, 88, 89, 91, 93, 94, 95, 99, 102, 110, 117, 119, 0, 1, 2, 4, 7, 11, 15, 19, 27, 29, 30, 35, 39, 40, 41, 45, 48, 55, 57, 59, 68, 69, 73, 74, 76, 78, 79, 80, 83, 84, 88, 92, 93, 99, 102, 103, 104, 106, 107, 110, 112, 113, 117, 1, 2, 3, 4, 5, 6, 8, 9, 13, 15, 17, 31, 35, 38, 39, 45, 48, 49, 50, 52, 53, 56, 57, 60, 61, 63, 64, 65, 71, 74, 78, 79, 81, 91, 92, 97, 101, 104, 109, 113, 115, 118, 2, 4, 5, 7, 10, 11, 13, 16, 17, 18, 21, 29, 32, 35, 38, 39, 41, 43, 44, 45, 49, 50, 51, 54, 56, 59, 60, 70, 71, 74, 75, 78, 82, 84, 86, 87, 88, 89, 91, 93, 95, 98, 100, 101, 104, 109, 113, 114, 116, 119, 1, 6, 7, 9, 14, 18, 21, 24, 27, 28, 31, 37, 47, 50, 53, 54, 57, 58, 59, 61, 63, 65, 67, 70, 71, 76, 79, 83, 85, 87, 89, 93, 95, 96, 98, 99, 100, 106, 107, 112, 113, 115, 117, 2, 3, 4, 8, 9, 10, 14, 15, 17, 19, 21, 22, 25, 27, 29, 31, 32, 33, 34, 38, 39, 40, 41, 44, 47, 48, 50, 52, 54, 56, 61, 64, 66, 69, 72, 77, 79, 83, 85, 90, 91, 93, 95, 97, 98, 101, 104, 106, 107, 110, 114, 118, 119, 0, 1, 2, 9, 10, 11, 15, 18, 19, 23, 32, 34, 36, 37, 38, 40, 45, 47, 50, 51, 56, 57, 58, 60, 62, 65, 66, 67, 68, 70, 71, 75, 76, 79, 83, 84, 89, 90, 91, 93, 96, 99, 100, 101, 102, 109, 112, 115, 117, 1, 3, 4, 5, 6, 9, 10, 11, 12, 17, 19, 20, 22, 25, 28, 29, 31, 32, 34, 35, 36, 37, 38, 39, 40, 41, 43, 45, 46, 48, 49, 50, 56, 62, 63, 67, 69, 70, 75, 76, 81, 82, 83, 95, 96, 98, 99, 106, 113, 114, 117, 0, 2, 9, 10, 11, 12, 14, 15, 17, 19, 21, 22, 23, 28, 29, 31, 34, 37, 38, 41, 42, 43, 44, 45, 51, 58, 60, 62, 63, 64, 67, 68, 79, 81, 83, 84, 85, 88, 91, 92, 93, 95, 96, 99, 105, 106, 111, 112, 113, 115, 119, 10, 18, 19, 22, 27, 28, 29, 30, 34, 38, 39, 42, 44, 46, 48, 51, 53, 63, 69, 71, 74, 75, 77, 78, 79, 80, 84, 85, 87, 88, 97, 104, 105, 106, 108, 114, 117, 119, 0, 1, 2, 4, 10, 12, 13, 14, 16, 19, 22, 27, 28, 31, 33, 37, 38, 41, 43, 44, 46, 51, 52, 53, 55, 61, 64, 65, 66, 69, 70, 71, 74, 75, 76, 77, 78, 81, 82, 83, 85, 88, 90, 97, 100, 101, 103, 107, 108, 109, 110, 116, 118, 119, 6, 7, 10, 11, 13, 15, 18, 19, 27, 29, 33, 35, 37, 40, 46, 47, 48, 50, 51, 55, 58, 59, 61, 64, 65, 67, 72, 73, 79, 81, 82, 85, 87, 88, 97, 98, 104, 105, 108, 110, 111, 113, 114, 118, 1, 6, 12, 14, 23, 26, 30, 32, 35, 36, 40, 45, 46, 49, 50, 51, 53, 54, 56, 57, 58, 60, 64, 65, 77, 80, 82, 86, 89, 91, 95, 97, 104, 105, 106, 109, 110, 111, 112, 115, 118, 0, 4, 5, 11, 12, 15, 16, 17, 18, 21, 23, 28, 31, 35, 36, 39, 43, 44, 48, 59, 61, 64, 65, 67, 69, 71, 74, 79, 84, 85, 89, 95, 102, 104, 105, 111, 112, 113, 118, 2, 3, 12, 16, 18, 19, 22, 23, 24, 25, 26, 30, 33, 34, 35, 36, 37, 40, 42, 43, 49, 53, 55, 56, 57, 60, 63, 64, 69, 71, 73, 77, 81, 82, 84, 90, 94, 97, 106, 110, 112, 113, 116, 119, 0, 1, 3, 4, 13, 14, 17, 19, 28, 31, 35, 37, 39, 41, 42, 43, 44, 48, 51, 54, 57, 60, 64, 67, 69, 70, 75, 76, 77, 83, 84, 92, 97, 104, 105, 106, 113, 119, 1, 3, 4, 7, 10, 11, 14, 15, 16, 19, 21, 23, 24, 26, 29, 33, 36, 37, 38, 44, 46, 48, 54, 56, 59, 62, 63, 67, 69, 70, 72, 73, 76, 77, 80, 82, 84, 85, 91, 92, 96, 98, 100, 104, 106, 108, 109, 114, 0, 5, 8, 11, 13, 14, 16, 19, 20, 23, 24, 27, 37, 39, 40, 43, 45, 50, 57, 58, 59, 61, 65, 74, 77, 87, 89, 97, 100, 101, 102, 103, 104, 113, 116, 117, 118, 0, 2, 4, 9, 10, 11, 14, 16, 22, 31, 36, 38, 43, 45, 46, 59, 62, 65, 69, 70, 74, 75, 78, 79, 80, 82, 84, 86, 87, 92, 96, 101, 102, 105, 108, 110, 111, 115, 116, 117, 118, 1, 2, 5, 7, 8, 10, 16, 17, 20, 24, 26, 27, 38, 39, 40, 48, 49, 56, 61, 67, 75, 77, 83, 84, 87, 89, 90, 91, 94, 95, 96, 97, 98, 102, 103, 105, 106, 107, 108, 109, 110, 114, 118, 119, 2, 5, 6, 7, 9, 12, 13, 15, 20, 21, 23, 26, 34, 35, 36, 38, 39, 45, 46, 48, 51, 55, 58, 60, 62, 66, 68, 70, 72, 73, 79, 84, 90, 93, 94, 95, 96, 97, 98, 101, 107, 110, 111, 115, 117, 5, 6, 7, 8, 9, 12, 18, 19, 22, 24, 25, 28, 29, 34, 38, 39, 46, 50, 52, 53, 55, 57, 58, 60, 67, 68, 71, 73, 78, 79, 80, 81, 87, 89, 91, 92, 94, 95, 97, 100, 102, 105, 109, 110, 112, 114, 115, 116, 117, 3, 5, 6, 7, 11, 16, 18, 26, 27, 29, 31, 35, 37, 38, 39, 41, 43, 46, 48, 49, 51, 53, 59, 65, 66, 68, 70, 71, 75, 80, 85, 89, 90, 91, 97, 101, 103, 104, 110, 117, 118, 1, 4, 6, 16, 17, 19, 24, 27, 28, 31, 33, 36, 37, 39, 45, 51, 53, 54, 55, 57, 59, 60, 63, 64, 65, 67, 78, 80, 87, 89, 91, 92, 93, 95, 101, 102, 105, 107, 108, 110, 111, 4, 9, 11, 15, 16, 19, 21, 25, 27, 28, 29, 33, 36, 37, 38, 39, 40, 41, 42, 43, 48, 50, 52, 58, 60, 67, 68, 73, 74, 78, 80, 86, 93, 94, 102, 106, 109, 110, 0, 1, 2, 5, 7, 10, 13, 14, 15, 18, 19, 21, 22, 24, 30, 33, 34, 36, 37, 38, 43, 45, 48, 49, 54, 56, 59, 60, 61, 62, 63, 66, 68, 70, 71, 79, 82, 83, 89, 90, 92, 93, 97, 98, 100, 101, 103, 104, 105, 107, 109, 110, 111, 115, 118, 2, 3, 4, 5, 6, 7, 8, 11, 13, 20, 22, 27, 32, 35, 38, 42, 46, 47, 50, 51, 52, 53, 61, 62, 65, 67, 68, 73, 74, 75, 78, 84, 86, 89, 92, 94, 95, 96, 97, 100, 101, 104, 105, 106, 110, 111, 112, 118, 0, 5, 7, 8, 9, 12, 16, 18, 19, 23, 26, 27, 28, 33, 34, 37, 39, 41, 42, 44, 45, 48, 49, 52, 56, 60, 61, 64, 66, 69, 70, 73, 74, 75, 86, 87, 88, 89, 90, 91, 93, 98, 101, 102, 105, 107, 109, 111, 115, 117, 2, 4, 5, 6, 13, 15, 16, 17, 18, 21, 23, 24, 26, 27, 29, 33, 34, 36, 38, 44, 45, 47, 48, 50, 51, 55, 57, 60, 64, 65, 70, 72, 75, 77, 78, 79, 80, 82, 84, 87, 90, 92, 93, 95, 98, 101, 102, 103, 107, 109, 112, 115, 118, 0, 3, 4, 15, 18, 21, 23, 24, 28, 29, 31, 33, 34, 35, 37, 41, 42, 47, 49, 57, 59, 60, 61, 62, 65, 70, 80, 81, 83, 89, 92, 101, 103, 105, 108, 114, 2, 6, 8, 9, 11, 12, 15, 16, 21, 22, 26, 27, 29, 30, 46, 51, 52, 54, 55, 56, 58, 61, 62, 64, 66, 67, 68, 69, 70, 72, 73, 75, 79, 82, 83, 85, 89, 90, 92, 100, 101, 102, 103, 105, 108, 109, 114, 115, 117, 118, 0, 2, 9, 12, 17, 18, 20, 22, 25, 27, 30, 37, 45, 46, 48, 49, 50, 59, 62, 63, 66, 67, 70, 72, 73, 76, 79, 80, 85, 86, 90, 91, 92, 93, 95, 99, 100, 101, 106, 115, 116, 117, 118, 0, 2, 3, 5, 13, 14, 17, 19, 21, 25, 27, 29, 30, 32, 38, 39, 43, 44, 45, 46, 48, 51, 52, 60, 61, 62, 65, 70, 71, 72, 74, 75, 83, 84, 87, 90, 92, 95, 96, 97, 98, 102, 105, 111, 112, 113, 114, 117, 119, 0, 4, 13, 14, 15, 17, 20, 22, 24, 27, 28, 29, 30, 32, 34, 35, 36, 39, 44, 49, 52, 53, 54, 56, 58, 61, 65, 73, 80, 81, 82, 83, 84, 87, 88, 89, 90, 92, 93, 95, 97, 98, 101, 102, 103, 106, 107, 116, 117, 118, 1, 3, 5, 14, 15, 19, 21, 22, 24, 25, 28, 32, 36, 38, 46, 49, 50, 51, 52, 55, 58, 59, 62, 63, 64, 67, 68, 69, 76, 78, 80, 84, 87, 88, 90, 93, 95, 97, 99, 100, 101, 102, 111, 113, 114, 115, 116, 1, 4, 6, 8, 9, 10, 12, 19, 24, 27, 28, 31, 34, 41, 42, 43, 45, 47, 50, 53, 54, 55, 57, 58, 60, 61, 64, 65, 67, 68, 71, 74, 77, 78, 80, 82, 86, 90, 91, 92, 95, 97, 98, 99, 100, 103, 107, 109, 110, 111, 112, 113, 115, 118, 0, 4, 5, 6, 8, 10, 11, 15, 17, 18, 19, 20, 26, 27, 30, 31, 33, 34, 36, 37, 39, 40, 43, 44, 46, 49, 50, 51, 55, 58, 60, 64, 66, 67, 69, 73, 74, 76, 77, 78, 79, 80, 84, 85, 87, 88, 90, 91, 92, 94, 98, 100, 102, 103, 104, 105, 106, 109, 110, 114, 115, 118, 0, 1, 3, 5, 11, 13, 14, 15, 16, 17, 18, 19, 25, 26, 29, 31, 32, 33, 36, 38, 47, 50, 53, 55, 57, 58, 63, 68, 69, 70, 76, 78, 79, 81, 82, 85, 89, 90, 91, 92, 93, 96, 98, 104, 105, 111, 112, 114, 117, 2, 10, 12, 13, 14, 18, 20, 23, 24, 26, 27, 30, 34, 40, 45, 46, 48, 49, 55, 58, 61, 69, 76, 82, 83, 86, 89, 90, 91, 93, 94, 95, 96, 97, 99, 104, 105, 106, 111, 114, 117, 118, 1, 3, 5, 8, 9, 12, 13, 15, 16, 18, 21, 22, 23, 24, 27, 28, 30, 31, 32, 33, 35, 38, 39, 40, 43, 46, 49, 50, 53, 56, 57, 59, 61, 63, 65, 69, 72, 74, 75, 76, 78, 80, 82, 86, 87, 91, 93, 96, 100, 105, 106, 109, 114, 115, 116, 117, 118, 0, 1, 2, 5, 8, 9, 10, 11, 15, 16, 17, 19, 20, 22, 23, 27, 29, 32, 34, 35, 42, 49, 51, 55, 56, 58, 61, 65, 72, 74, 75, 76, 79, 81, 84, 90, 100, 101, 102, 105, 108, 113, 114, 116, 117, 0, 1, 3, 4, 7, 8, 12, 13, 14, 23, 27, 33, 36, 38, 39, 40, 48, 53, 54, 55, 56, 59, 61, 62, 63, 65, 68, 69, 71, 73, 74, 79, 80, 81, 82, 83, 86, 87, 89, 95, 98, 101, 103, 104, 106, 108, 112, 114, 115, 116, 117, 118, 119, 0, 4, 6, 7, 17, 22, 26, 27, 29, 30, 32, 41, 47, 48, 49, 51, 52, 53, 54, 55, 60, 63, 65, 66, 67, 69, 70, 71, 73, 74, 75, 76, 78, 80, 81, 83, 89, 95, 96, 97, 99, 100, 101, 102, 105, 106, 108, 109, 113, 114, 117, 0, 6, 7, 8, 10, 14, 16, 19, 25, 26, 27, 28, 31, 32, 34, 35, 40, 41, 44, 49, 50, 51, 56, 57, 63, 69, 72, 75, 76, 77, 78, 82, 84, 88, 90, 91, 92, 99, 100, 102, 104, 110, 111, 112, 116, 118, 0, 2, 3, 5, 6, 8, 9, 10, 16, 18, 21, 22, 27, 29, 30, 35, 36, 39, 45, 50, 52, 55, 57, 58, 62, 64, 66, 71, 73, 78, 79, 80, 84, 86, 89, 91, 99, 101, 105, 109, 112, 114, 115, 119, 2, 10, 11, 14, 17, 19, 22, 23, 25, 27, 28, 29, 30, 31, 35, 41, 51, 54, 55, 56, 58, 64, 65, 66, 71, 73, 75, 76, 78, 80, 81, 85, 86, 87, 90, 91, 92, 94, 96, 97, 98, 101, 102, 105, 106, 110, 111, 117, 118, 0, 2, 4, 5, 8, 9, 10, 11, 12, 17, 18, 19, 22, 24, 28, 30, 32, 34, 36, 38, 41, 43, 44, 47, 48, 54, 55, 56, 57, 58, 63, 64, 65, 67, 73, 78, 79, 80, 82, 86, 87, 93, 94, 95, 99, 100, 101, 103, 106, 108, 111, 117, 1, 3, 5, 13, 19, 24, 25, 27, 30, 34, 35, 38, 41, 42, 43, 44, 45, 50, 53, 54, 59, 61, 64, 65, 68, 71, 82, 86, 88, 90, 91, 95, 97, 98, 101, 107, 109, 110, 111, 112, 113, 114, 118, 119, 1, 2, 4, 5, 7, 8, 10, 11, 13, 14, 16, 17, 21, 23, 27, 28, 33, 35, 36, 37, 45, 48, 49, 54, 55, 57, 58, 61, 63, 64, 69, 70, 72, 76, 77, 78, 80, 84, 85, 89, 91, 93, 96, 103, 105, 109, 112, 114, 119, 5, 6, 10, 11, 12, 15, 17, 21, 22, 23, 25, 33, 36, 40, 42, 46, 47, 53, 57, 58, 63, 67, 70, 80, 81, 82, 92, 95, 99, 102, 104, 106, 109, 114, 117, 118, 119, 4, 11, 16, 19, 20, 21, 23, 24, 26, 27, 28, 29, 31, 32, 33, 35, 38, 39, 41, 44, 49, 51, 58, 59, 60, 63, 65, 66, 67, 68, 76, 81, 82, 84, 87, 89, 90, 93, 96, 97, 98, 100, 102, 104, 106, 107, 110, 113, 114, 115, 117, 2, 12, 14, 15, 16, 18, 20, 24, 25, 26, 28, 30, 33, 39, 40, 50, 53, 57, 59, 62, 64, 65, 66, 67, 71, 72, 73, 76, 77, 79, 82, 84, 93, 94, 101, 104, 105, 108, 109, 111, 112, 116, 1, 2, 5, 9, 13, 14, 17, 20, 27, 31, 33, 35, 40, 45, 49, 52, 55, 58, 61, 63, 64, 66, 70, 75, 76, 77, 82, 85, 86, 87, 90, 91, 92, 98, 106, 109, 112, 115, 117, 1, 3, 7, 9, 10, 15, 18, 23, 26, 27, 31, 36, 41, 43, 49, 52, 54, 56, 57, 63, 66, 67, 69, 70, 74, 76, 77, 78, 82, 83, 84, 85, 93, 99, 100, 101, 104, 105, 107, 108, 109, 112, 114, 1, 3, 4, 5, 7, 8, 10, 12, 13, 14, 16, 18, 23, 24, 27, 29, 31, 32, 34, 35, 36, 37, 38, 39, 41, 42, 44, 48, 53, 56, 60, 62, 63, 66, 67, 73, 74, 75, 77, 80, 81, 83, 88, 90, 91, 92, 93, 94, 100, 103, 105, 109, 112, 115, 4, 6, 14, 15, 16, 17, 18, 19, 23, 29, 35, 36, 38, 40, 43, 45, 47, 49, 51, 57, 66, 67, 69, 72, 74, 80, 83, 84, 85, 86, 87, 88, 89, 90, 91, 94, 98, 101, 110, 115, 116, 117, 3, 4, 9, 10, 14, 16, 17, 19, 21, 22, 23, 29, 31, 32, 34, 35, 36, 39, 42, 47, 48, 49, 51, 56, 58, 61, 64, 65, 69, 70, 72, 73, 76, 77, 78, 84, 85, 87, 88, 89, 94, 95, 97, 98, 99, 100, 101, 103, 106, 108, 110, 111, 114, 116, 0, 1, 3, 4, 5, 6, 9, 10, 11, 14, 18, 21, 24, 26, 27, 31, 36, 37, 41, 43, 44, 49, 50, 51, 52, 54, 56, 62, 64, 66, 67, 68, 73, 74, 80, 81, 83, 84, 85, 86, 89, 90, 91, 96, 97, 99, 105, 107, 112, 113, 114, 117, 0, 2, 7, 9, 12, 13, 14, 19, 20, 23, 31, 34, 35, 36, 37, 38, 40, 41, 42, 43, 44, 46, 49, 50, 52, 53, 57, 58, 60, 61, 64, 65, 67, 76, 79, 82, 87, 90, 94, 96, 98, 100, 107, 108, 109, 116, 118, 2, 4, 7, 12, 13, 14, 16, 18, 19, 20, 23, 27, 28, 29, 32, 34, 35, 36, 39, 40, 41, 44, 45, 46, 47, 48, 54, 55, 57, 58, 59, 60, 69, 71, 72, 73, 75, 79, 83, 84, 87, 88, 89, 94, 95, 98, 104, 105, 108, 109, 112, 113, 114, 115, 117, 119, 2, 6, 10, 11, 13, 19, 20, 21, 23, 26, 27, 28, 29, 30, 34, 35, 37, 38, 39, 44, 45, 52, 53, 69, 70, 81, 91, 94, 102, 111, 116, 118, 0, 10, 15, 16, 17, 19, 21, 22, 23, 24, 26, 28, 31, 32, 34, 35, 41, 42, 43, 50, 51, 57, 60, 61, 65, 68, 69, 73, 74, 76, 77, 78, 80, 81, 83, 86, 88, 90, 91, 93, 96, 97, 100, 102, 105, 106, 111, 113, 114, 115, 117, 118, 119, 0, 5, 8, 10, 13, 27, 28, 33, 35, 36, 39, 41, 43, 44, 45, 48, 51, 54, 56, 57, 59, 64, 66, 68, 70, 71, 75, 76, 79, 82, 83, 85, 89, 92, 93, 94, 95, 98, 100, 102, 104, 106, 107, 108, 109, 112, 113, 114, 115, 117, 1, 2, 6, 9, 10, 14, 20, 21, 24, 25, 26, 29, 33, 38, 39, 40, 41, 45, 47, 52, 57, 58, 60, 62, 63, 64, 66, 67, 68, 70, 72, 73, 74, 77, 84, 87, 93, 94, 100, 103, 109, 112, 113, 114, 116, 117, 4, 5, 7, 8, 12, 14, 15, 19, 21, 22, 25, 27, 33, 37, 38, 40, 43, 44, 47, 49, 50, 51, 54, 56, 61, 64, 67, 78, 83, 88, 89, 90, 93, 94, 96, 103, 105, 106, 107, 109, 111, 113, 115, 119, 0, 2, 3, 11, 12, 15, 16, 23, 24, 25, 29, 33, 34, 37, 38, 48, 49, 50, 51, 53, 54, 55, 56, 59, 62, 66, 67, 70, 71, 74, 77, 79, 81, 82, 84, 86, 87, 88, 90, 95, 99, 106, 109, 112, 113, 116, 117, 3, 6, 10, 11, 13, 17, 23, 24, 26, 33, 35, 38, 39, 40, 43, 47, 49, 59, 65, 68, 74, 78, 79, 80, 84, 85, 91, 92, 95, 97, 99, 101, 102, 104, 107, 112, 113, 117, 0, 1, 3, 7, 10, 14, 19, 20, 23, 24, 29, 31, 32, 35, 37, 45, 49, 51, 56, 57, 64, 67, 69, 73, 80, 85, 87, 91, 92, 95, 96, 97, 100, 103, 105, 106, 107, 109, 115, 116, 118, 119, 0, 3, 7, 8, 9, 11, 16, 19, 20, 22, 23, 26, 27, 36, 37, 39, 47, 48, 49, 51, 52, 53, 55, 57, 59, 61, 66, 68, 69, 70, 75, 79, 80, 82, 84, 85, 86, 93, 97, 98, 101, 102, 104, 106, 107, 108, 117, 1, 3, 5, 6, 13, 17, 19, 20, 21, 24, 25, 26, 32, 36, 38, 46, 47, 50, 53, 55, 57, 59, 61, 64, 65, 66, 67, 69, 70, 71, 75, 77, 83, 86, 87, 88, 89, 90, 91, 93, 95, 100, 105, 106, 110, 117, 118, 119, 1, 2, 3, 5, 10, 12, 15, 17, 19, 21, 22, 24, 25, 29, 30, 34, 35, 37, 38, 41, 44, 45, 47, 51, 52, 54, 55, 56, 59, 61, 63, 65, 68, 71, 78, 83, 86, 88, 89, 90, 93, 94, 95, 98, 99, 101, 102, 106, 110, 111, 112, 113, 114, 115, 118, 0, 1, 2, 4, 6, 9, 10, 11, 12, 13, 16, 17, 21, 22, 23, 25, 28, 31, 32, 33, 34, 35, 36, 37, 43, 47, 49, 51, 58, 62, 63, 64, 66, 70, 74, 75, 78, 81, 86, 89, 90, 91, 93, 95, 96, 98, 99, 101, 103, 105, 108, 113, 115, 116, 118, 7, 13, 16, 18, 19, 23, 24, 35, 36, 37, 47, 48, 50, 56, 57, 60, 61, 62, 63, 65, 70, 71, 72, 73, 76, 77, 80, 81, 83, 86, 89, 90, 92, 94, 95, 97, 98, 100, 105, 112, 115, 116, 117, 0, 2, 7, 11, 13, 15, 18, 20, 21, 23, 25, 26, 27, 32, 35, 36, 42, 44, 46, 47, 50, 55, 58, 60, 63, 66, 76, 79, 81, 82, 86, 91, 92, 93, 98, 99, 100, 103, 108, 109, 111, 115, 116, 117, 0, 1, 3, 6, 14, 15, 18, 20, 22, 25, 34, 35, 37, 38, 39, 41, 47, 48, 49, 52, 57, 59, 68, 69, 77, 78, 80, 83, 84, 85, 86, 89, 93, 94, 96, 99, 101, 114, 117, 119, 3, 4, 5, 7, 8, 11, 13, 14, 16, 20, 21, 23, 24, 25, 34, 36, 39, 41, 42, 43, 44, 46, 52, 53, 57, 59, 62, 65, 67, 70, 71, 79, 83, 84, 86, 89, 92, 93, 95, 96, 100, 102, 103, 108, 111, 112, 115, 2, 3, 4, 7, 9, 12, 14, 15, 16, 19, 22, 24, 25, 26, 27, 28, 31, 34, 35, 36, 37, 40, 42, 44, 45, 46, 50, 51, 53, 54, 55, 59, 60, 64, 70, 75, 76, 79, 80, 81, 84, 85, 86, 88, 91, 92, 93, 94, 96, 97, 108, 109, 114, 1, 3, 4, 6, 9, 11, 13, 15, 16, 18, 19, 21, 24, 25, 26, 28, 29, 32, 34, 37, 42, 49, 54, 55, 56, 60, 61, 63, 72, 73, 76, 82, 86, 89, 92, 94, 103, 104, 106, 107, 108, 114, 115, 116, 119, 0, 2, 4, 5, 6, 7, 9, 10, 12, 16, 18, 22, 25, 30, 32, 33, 37, 38, 39, 40, 41, 43, 49, 50, 55, 57, 59, 64, 67, 68, 77, 78, 79, 82, 85, 86, 88, 92, 95, 96, 101, 105, 113, 114, 115, 116, 118, 119, 3, 4, 5, 6, 9, 10, 17, 18, 19, 22, 23, 24, 25, 30, 33, 40, 41, 42, 43, 44, 46, 47, 49, 52, 53, 54, 58, 63, 65, 69, 70, 73, 75, 78, 79, 82, 84, 85, 87, 88, 90, 91, 93, 95, 99, 104, 108, 109, 112, 114, 118, 119, 0, 3, 4, 5, 6, 7, 8, 9, 23, 25, 27, 30, 33, 35, 38, 39, 42, 43, 47, 49, 53, 56, 63, 65, 68, 69, 70, 71, 73, 75, 78, 80, 81, 84, 88, 95, 98, 101, 102, 103, 104, 106, 110, 111, 114, 115, 116, 119, 3, 4, 5, 10, 13, 14, 16, 18, 19, 22, 25, 29, 30, 36, 41, 45, 47, 48, 50, 51, 53, 54, 56, 58, 61, 62, 63, 65, 75, 76, 77, 78, 79, 82, 83, 84, 85, 87, 88, 89, 90, 96, 99, 101, 110, 114, 116, 2, 4, 5, 12, 13, 14, 16, 24, 26, 28, 35, 36, 37, 38, 39, 40, 46, 49, 55, 56, 57, 60, 62, 64, 72, 75, 77, 79, 81, 82, 84, 86, 87, 96, 98, 99, 101, 103, 109, 110, 112, 113, 115, 119, 2, 4, 8, 10, 13, 15, 23, 29, 30, 31, 32, 33, 34, 37, 38, 41, 43, 44, 47, 48, 51, 53, 57, 61, 62, 67, 70, 71, 72, 73, 74, 75, 76, 84, 86, 91, 95, 96, 98, 100, 102, 104, 106, 111, 113, 115, 117, 119, 0, 3, 4, 6, 9, 10, 12, 13, 16, 17, 22, 26, 30, 31, 33, 34, 35, 38, 39, 44, 47, 48, 49, 50, 51, 55, 56, 57, 58, 63, 64, 65, 68, 70, 72, 74, 80, 82, 91, 92, 94, 97, 99, 101, 104, 107, 110, 115, 116, 117, 119, 2, 3, 7, 12, 14, 16, 19, 20, 32, 36, 37, 39, 42, 44, 46, 47, 49, 50, 51, 52, 53, 56, 57, 58, 60, 63, 67, 71, 72, 78, 79, 82, 89, 92, 93, 94, 95, 97, 100, 102, 106, 108, 112, 114, 115, 118, 0, 5, 11, 14, 15, 17, 20, 21, 28, 29, 30, 38, 39, 41, 42, 43, 45, 47, 60, 66, 68, 69, 80, 81, 82, 83, 91, 92, 93, 94, 95, 99, 100, 101, 102, 112, 119, 1, 4, 5, 9, 16, 17, 18, 19, 21, 22, 25, 26, 30, 32, 33, 35, 37, 45, 47, 48, 50, 51, 58, 61, 62, 68, 71, 73, 74, 76, 77, 79, 80, 83, 86, 87, 88, 89, 91, 92, 93, 94, 96, 98, 101, 103, 105, 108, 109, 113, 114, 117, 0, 3, 4, 5, 10, 16, 18, 20, 21, 23, 25, 29, 33, 38, 39, 41, 42, 49, 51, 53, 56, 60, 61, 62, 63, 72, 74, 75, 76, 77, 79, 80, 81, 86, 88, 89, 92, 94, 95, 96, 97, 98, 99, 101, 104, 105, 112, 115, 2, 3, 5, 6, 9, 12, 13, 16, 17, 22, 24, 25, 30, 33, 34, 40, 42, 43, 46, 47, 48, 49, 50, 52, 53, 57, 58, 59, 60, 63, 65, 66, 69, 70, 71, 72, 74, 76, 77, 80, 84, 86, 88, 90, 91, 93, 96, 97, 99, 101, 102, 112, 115, 117, 4, 5, 6, 7, 10, 11, 14, 15, 16, 19, 20, 22, 28, 31, 33, 35, 38, 41, 42, 43, 45, 46, 50, 51, 53, 54, 57, 59, 61, 65, 69, 70, 73, 76, 80, 85, 89, 90, 92, 94, 95, 99, 100, 101, 102, 104, 107, 108, 109, 113, 114, 116, 118, 119, 10, 15, 22, 23, 28, 29, 31, 32, 33, 36, 39, 44, 47, 48, 50, 51, 52, 61, 62, 63, 68, 69, 76, 79, 81, 82, 83, 85, 86, 88, 96, 101, 102, 107, 109, 111, 113, 114, 115, 2, 3, 5, 6, 7, 8, 12, 13, 15, 17, 18, 20, 21, 23, 25, 28, 29, 31, 32, 38, 39, 41, 48, 49, 53, 57, 59, 62, 66, 68, 69, 74, 76, 80, 81, 82, 83, 85, 87, 88, 91, 92, 93, 94, 96, 97, 98, 99, 100, 103, 104, 107, 112, 119, 0, 5, 14, 16, 17, 22, 23, 25, 27, 28, 29, 30, 34, 35, 40, 42, 43, 47, 50, 54, 58, 59, 61, 63, 66, 68, 70, 72, 73, 75, 78, 83, 86, 87, 88, 89, 91, 93, 94, 95, 96, 98, 99, 101, 102, 105, 106, 107, 108, 109, 111, 116, 117, 2, 10, 13, 14, 16, 21, 23, 24, 25, 28, 29, 32, 34, 35, 36, 37, 38, 41, 44, 48, 49, 57, 58, 59, 60, 62, 63, 68, 71, 72, 75, 77, 79, 80, 82, 83, 86, 88, 91, 97, 99, 101, 102, 103, 106, 110, 112, 114, 115, 118, 0, 1, 2, 7, 10, 12, 13, 15, 16, 18, 20, 22, 23, 34, 35, 36, 41, 42, 45, 46, 49, 51, 55, 57, 59, 60, 62, 63, 64, 70, 71, 72, 78, 79, 82, 83, 84, 85, 93, 100, 101, 106, 107, 109, 110, 113, 115, 117, 1, 3, 7, 8, 9, 10, 11, 18, 20, 21, 22, 26, 32, 35, 36, 38, 40, 42, 43, 45, 47, 49, 53, 57, 68, 73, 75, 76, 82, 83, 85, 89, 97, 98, 102, 103, 104, 105, 107, 110, 112, 114, 117, 119, 4, 9, 11, 16, 17, 19, 21, 32, 37, 38, 39, 40, 43, 47, 48, 49, 51, 52, 53, 54, 57, 64, 66, 68, 74, 79, 81, 82, 84, 87, 89, 93, 95, 98, 102, 105, 106, 111, 112, 114, 117, 118, 119, 0, 1, 6, 8, 9, 11, 12, 17, 21, 24, 25, 27, 30, 37, 38, 40, 41, 42, 44, 49, 53, 55, 57, 58, 60, 64, 72, 74, 76, 82, 83, 84, 86, 88, 91, 92, 97, 98, 100, 104, 105, 106, 109, 111, 112, 113, 116, 1, 6, 8, 9, 23, 31, 32, 34, 41, 42, 43, 46, 49, 52, 55, 57, 60, 61, 62, 63, 65, 70, 71, 73, 75, 80, 81, 88, 95, 96, 97, 98, 99, 101, 106, 107, 109, 111, 112, 115, 1, 2, 5, 8, 12, 14, 15, 17, 18, 19, 21, 27, 28, 29, 32, 37, 38, 41, 43, 45, 46, 48, 50, 51, 54, 55, 56, 60, 70, 72, 73, 74, 77, 78, 82, 86, 87, 88, 90, 91, 93, 97, 98, 102, 104, 111, 113, 115, 119, 1, 5, 6, 11, 14, 15, 18, 19, 22, 25, 26, 28, 29, 32, 33, 34, 39, 41, 43, 44, 46, 49, 56, 59, 60, 61, 64, 66, 67, 69, 70, 77, 81, 90, 95, 97, 101, 105, 106, 107, 108, 112, 113, 114, 116, 117, 0, 4, 10, 11, 13, 20, 23, 24, 25, 26, 27, 29, 31, 35, 36, 38, 43, 44, 45, 47, 49, 51, 52, 53, 56, 57, 61, 62, 65, 67, 68, 69, 71, 73, 76, 77, 78, 80, 81, 84, 86, 87, 88, 91, 92, 95, 97, 98, 102, 103, 104, 105, 106, 110, 111, 112, 113, 115, 116, 118, 119, 0, 1, 3, 6, 8, 10, 13, 15, 16, 17, 20, 22, 28, 34, 40, 41, 44, 45, 48, 49, 58, 62, 63, 66, 71, 73, 76, 81, 82, 84, 90, 93, 95, 105, 111, 112, 114, 116, 117, 118, 3, 4, 6, 9, 16, 19, 20, 21, 31, 32, 35, 36, 39, 43, 44, 47, 48, 51, 54, 55, 59, 62, 65, 69, 73, 74, 75, 77, 83, 85, 87, 88, 94, 95, 96, 99, 101, 103, 104, 106, 108, 109, 110, 113, 114, 119, 8, 9, 10, 11, 22, 23, 24, 26, 27, 28, 32, 34, 38, 45, 46, 47, 49, 55, 56, 58, 59, 62, 64, 68, 69, 73, 77, 81, 85, 87, 88, 89, 94, 96, 103, 105, 106, 110, 119, 1, 2, 3, 4, 6, 7, 11, 12, 14, 18, 21, 22, 23, 30, 31, 32, 33, 34, 35, 36, 39, 40, 45, 47, 51, 52, 54, 59, 61, 65, 66, 69, 71, 72, 73, 74, 75, 76, 83, 84, 89, 92, 93, 95, 96, 98, 100, 104, 108, 109, 110, 113, 114, 116, 117, 118, 119, 2, 6, 7, 9, 10, 12, 15, 18, 21, 23, 26, 30, 32, 33, 35, 36, 40, 41, 43, 44, 47, 48, 51, 56, 59, 61, 66, 71, 72, 76, 77, 81, 84, 95, 96, 97, 101, 102, 104, 106, 107, 109, 110, 112, 113, 115, 117, 118, 119, 1, 2, 4, 6, 8, 9, 12, 14, 16, 20, 21, 22, 24, 25, 27, 31, 32, 39, 41, 42, 43, 44, 45, 50, 51, 52, 55, 56, 57, 60, 61, 62, 70, 73, 76, 77, 79, 80, 81, 83, 86, 88, 92, 94, 95, 97, 99, 100, 101, 102, 105, 106, 109, 110, 111, 113, 116, 118, 0, 1, 4, 8, 12, 15, 19, 22, 24, 25, 26, 29, 31, 32, 33, 35, 43, 47, 50, 51, 52, 56, 58, 59, 64, 66, 68, 74, 77, 80, 82, 83, 88, 89, 90, 101, 104, 112, 116, 117, 0, 3, 4, 6, 7, 10, 11, 14, 15, 19, 22, 35, 39, 44, 46, 48, 52, 54, 58, 60, 62, 63, 64, 68, 69, 75, 76, 80, 82, 84, 85, 88, 89, 95, 96, 97, 98, 103, 108, 109, 110, 111, 112, 113, 114, 0, 1, 2, 8, 10, 12, 13, 14, 17, 21, 22, 24, 27, 31, 35, 37, 39, 40, 41, 42, 43, 46, 48, 49, 50, 52, 54, 56, 58, 59, 62, 64, 71, 72, 75, 77, 79, 80, 81, 85, 89, 91, 94, 97, 100, 111, 113, 115, 116, 118, 1, 7, 10, 11, 13, 16, 21, 22, 24, 26, 27, 33, 34, 37, 41, 44, 46, 51, 53, 56, 59, 60, 63, 64, 65, 66, 69, 72, 73, 75, 76, 77, 79, 80, 81, 85, 88, 90, 91, 94, 96, 108, 109, 112, 115, 116, 0, 2, 5, 9, 10, 14, 15, 17, 20, 21, 29, 33, 34, 38, 43, 46, 49, 50, 51, 53, 54, 55, 61, 66, 69, 71, 72, 75, 77, 78, 79, 82, 86, 87, 88, 89, 90, 93, 94, 97, 100, 114, 116, 117, 119, 0, 1, 2, 3, 5, 7, 13, 17, 18, 19, 20, 21, 22, 24, 25, 35, 36, 39, 40, 41, 46, 50, 53, 56, 57, 60, 62, 68, 70, 71, 72, 77, 79, 81, 83, 86, 87, 91, 92, 98, 102, 105, 111, 112, 114, 115, 117, 119, 5, 6, 11, 20, 25, 28, 32, 39, 40, 44, 46, 49, 54, 57, 62, 67, 70, 71, 72, 74, 80, 81, 83, 84, 85, 86, 87, 88, 93, 94, 95, 96, 106, 107, 110, 113, 115, 116, 11, 12, 14, 27, 30, 32, 38, 39, 42, 43, 44, 49, 53, 55, 59, 62, 64, 67, 68, 69, 76, 82, 87, 88, 89, 90, 91, 93, 94, 101, 103, 104, 110, 111, 114, 117, 0, 1, 2, 3, 4, 5, 6, 9, 10, 12, 13, 14, 21, 24, 28, 31, 33, 34, 35, 38, 46, 48, 51, 56, 57, 58, 59, 63, 65, 76, 79, 82, 89, 93, 95, 97, 100, 102, 108, 111, 113, 114, 118, 119, 3, 5, 6, 9, 11, 15, 16, 18, 19, 20, 21, 23, 25, 27, 28, 30, 32, 34, 39, 40, 41, 42, 45, 47, 52, 53, 58, 59, 60, 63, 64, 66, 69, 75, 77, 78, 80, 82, 83, 87, 88, 90, 91, 93, 94, 99, 101, 102, 105, 111, 113, 115, 118, 119, 0, 1, 2, 3, 5, 9, 12, 19, 21, 24, 30, 31, 35, 36, 37, 39, 40, 43, 44, 45, 46, 49, 51, 56, 61, 63, 64, 65, 69, 74, 86, 87, 92, 97, 98, 99, 100, 101, 103, 107, 110, 111, 113, 118, 0, 3, 8, 9, 11, 13, 16, 18, 19, 21, 22, 23, 28, 32, 33, 34, 39, 41, 42, 44, 48, 49, 55, 56, 57, 58, 60, 62, 65, 66, 68, 69, 73, 74, 75, 76, 81, 83, 86, 87, 89, 90, 91, 97, 98, 99, 100, 101, 104, 106, 107, 109, 111, 114, 119, 4, 5, 9, 10, 12, 15, 17, 18, 19, 20, 24, 28, 32, 33, 34, 37, 40, 45, 48, 51, 52, 53, 54, 56, 63, 69, 79, 80, 81, 83, 84, 88, 91, 92, 94, 97, 98, 100, 103, 104, 113, 4, 6, 7, 15, 17, 19, 21, 24, 25, 26, 28, 29, 32, 34, 36, 40, 42, 44, 46, 49, 51, 53, 57, 58, 62, 65, 74, 75, 78, 82, 85, 89, 97, 98, 100, 102, 108, 111, 113, 117, 118, 119, 2, 3, 4, 7, 12, 13, 17, 18, 23, 24, 25, 26, 27, 28, 30, 31, 32, 33, 38, 39, 45, 47, 48, 51, 52, 53, 54, 59, 60, 62, 63, 64, 66, 70, 72, 75, 80, 83, 86, 89, 90, 93, 99, 100, 102, 103, 104, 105, 106, 108, 109, 111, 113, 114, 115, 117, 3, 5, 6, 7, 14, 19, 22, 25, 27, 28, 29, 33, 37, 38, 39, 40, 41, 42, 43, 46, 47, 50, 53, 55, 56, 59, 60, 69, 71, 74, 78, 79, 84, 85, 86, 89, 94, 95, 99, 100, 103, 104, 109, 110, 112, 116, 117, 119, 0, 2, 3, 4, 5, 11, 14, 17, 19, 21, 23, 24, 29, 31, 38, 40, 41, 42, 45, 50, 52, 54, 55, 57, 58, 59, 62, 66, 67, 68, 69, 71, 74, 76, 77, 79, 81, 84, 85, 86, 87, 89, 95, 99, 100, 104, 105, 106, 108, 110, 111, 114, 116, 2, 3, 4, 5, 8, 10, 11, 19, 22, 25, 26, 27, 28, 31, 32, 33, 36, 37, 38, 39, 40, 41, 45, 48, 53, 55, 56, 59, 60, 62, 66, 70, 74, 78, 83, 84, 88, 90, 93, 94, 97, 99, 103, 105, 107, 110, 117, 0, 1, 3, 4, 7, 13, 20, 21, 23, 24, 25, 27, 28, 29, 30, 31, 32, 34, 35, 39, 40, 41, 45, 46, 47, 54, 55, 57, 59, 61, 62, 64, 69, 70, 71, 73, 78, 79, 83, 85, 87, 89, 90, 91, 97, 100, 101, 103, 105, 106, 109, 111, 112, 114, 116, 119, 1, 4, 7, 9, 10, 14, 22, 23, 27, 28, 32, 38, 39, 48, 59, 61, 62, 64, 67, 68, 69, 71, 74, 75, 76, 77, 78, 84, 85, 87, 89, 99, 101, 102, 103, 104, 106, 107, 108, 109, 110, 111, 113, 114, 115, 119, 4, 5, 9, 11, 13, 15, 18, 20, 21, 22, 24, 27, 30, 34, 35, 36, 37, 38, 40, 43, 47, 50, 53, 55, 56, 59, 61, 63, 65, 66, 68, 76, 77, 78, 81, 87, 89, 94, 97, 98, 99, 100, 101, 102, 106, 109, 111, 118, 119, 0, 1, 2, 3, 4, 10, 12, 15, 16, 18, 20, 31, 32, 37, 39, 40, 41, 43, 44, 49, 53, 54, 55, 56, 61, 65, 69, 71, 73, 76, 77, 79, 85, 87, 88, 90, 92, 94, 103, 104, 105, 107, 109, 110, 115, 116, 117, 1, 5, 10, 12, 16, 31, 32, 34, 35, 40, 42, 43, 44, 48, 51, 52, 55, 58, 65, 67, 68, 74, 77, 82, 83, 86, 88, 93, 94, 96, 99, 101, 102, 106, 107, 108, 110, 113, 119, 4, 5, 6, 13, 14, 18, 21, 22, 24, 28, 32, 35, 36, 38, 40, 41, 44, 45, 47, 51, 55, 56, 57, 58, 59, 60, 62, 69, 70, 71, 73, 78, 89, 90, 91, 96, 97, 104, 109, 110, 111, 112, 113, 114, 116, 119, 1, 2, 3, 8, 9, 11, 14, 16, 17, 18, 21, 27, 29, 30, 31, 34, 36, 38, 39, 41, 47, 49, 51, 53, 56, 61, 62, 63, 65, 67, 68, 69, 70, 71, 72, 73, 81, 84, 91, 93, 100, 101, 102, 103, 104, 105, 109, 110, 113, 115, 117, 118, 3, 4, 7, 8, 15, 17, 19, 20, 21, 24, 27, 29, 39, 40, 42, 46, 50, 54, 57, 61, 62, 63, 64, 65, 67, 71, 74, 76, 78, 80, 84, 87, 88, 90, 91, 93, 96, 99, 100, 101, 104, 105, 106, 107, 108, 110, 116, 117, 119, 2, 3, 6, 10, 11, 12, 14, 16, 18, 20, 21, 22, 24, 25, 26, 29, 33, 37, 42, 46, 47, 48, 50, 52, 53, 55, 58, 59, 65, 67, 69, 72, 76, 85, 86, 88, 89, 92, 93, 99, 100, 101, 103, 105, 108, 111, 113, 115, 118, 0, 1, 2, 3, 4, 5, 9, 10, 13, 19, 20, 26, 27, 29, 31, 35, 38, 39, 40, 41, 47, 49, 55, 64, 67, 70, 72, 73, 75, 78, 79, 80, 91, 93, 94, 98, 99, 100, 107, 108, 109, 113, 114, 119, 2, 5, 6, 9, 11, 13, 15, 18, 20, 21, 25, 27, 35, 36, 38, 39, 40, 49, 54, 56, 63, 65, 73, 80, 81, 82, 83, 84, 90, 91, 92, 93, 95, 100, 101, 102, 107, 108, 110, 112, 114, 115, 117, 119, 1, 4, 11, 15, 17, 19, 21, 25, 28, 29, 30, 31, 33, 37, 39, 40, 41, 44, 45, 48, 49, 52, 57, 63, 64, 66, 68, 71, 72, 75, 76, 77, 79, 94, 95, 96, 102, 105, 106, 107, 109, 117, 119, 4, 9, 15, 16, 17, 18, 26, 27, 28, 30, 33, 34, 35, 36, 39, 40, 42, 43, 47, 50, 51, 52, 53, 58, 59, 60, 63, 64, 65, 67, 69, 70, 74, 75, 76, 79, 80, 82, 83, 89, 91, 92, 94, 95, 97, 101, 102, 105, 106, 111, 113, 117, 118, 119, 6, 7, 8, 9, 10, 20, 21, 22, 24, 27, 28, 31, 35, 38, 39, 40, 42, 44, 46, 50, 53, 54, 55, 60, 61, 64, 66, 67, 68, 74, 75, 76, 78, 79, 80, 83, 86, 87, 91, 94, 95, 96, 97, 99, 102, 104, 116, 117, 118, 119, 0, 1, 7, 8, 12, 13, 14, 16, 19, 24, 25, 27, 29, 32, 33, 34, 35, 39, 41, 42, 44, 47, 49, 53, 54, 55, 59, 62, 64, 65, 68, 71, 72, 74, 78, 79, 83, 84, 87, 89, 93, 95, 98, 101, 103, 108, 109, 110, 1, 4, 9, 12, 13, 17, 18, 19, 20, 22, 24, 25, 26, 28, 29, 34, 36, 37, 39, 45, 46, 50, 52, 53, 56, 58, 60, 61, 62, 65, 68, 69, 74, 76, 86, 87, 98, 99, 104, 106, 110, 111, 117, 1, 2, 4, 5, 7, 10, 11, 14, 15, 16, 17, 19, 21, 25, 26, 29, 32, 34, 35, 36, 37, 38, 40, 45, 46, 47, 55, 56, 62, 68, 71, 73, 74, 78, 80, 81, 84, 85, 86, 88, 90, 99, 101, 102, 105, 107, 108, 110, 111, 7, 10, 11, 13, 14, 15, 20, 21, 23, 26, 27, 28, 31, 32, 33, 34, 35, 36, 37, 38, 40, 41, 43, 48, 49, 54, 55, 60, 61, 64, 75, 76, 79, 84, 85, 88, 89, 93, 100, 102, 106, 107, 113, 116, 117, 5, 7, 10, 12, 14, 19, 20, 21, 27, 28, 29, 34, 36, 38, 43, 45, 49, 51, 52, 53, 54, 65, 67, 71, 72, 73, 74, 75, 76, 78, 79, 81, 83, 85, 86, 88, 92, 93, 97, 98, 100, 102, 103, 106, 109, 110, 113, 114, 117, 118, 4, 8, 14, 15, 17, 19, 22, 23, 26, 28, 29, 30, 33, 35, 40, 42, 44, 48, 53, 59, 63, 64, 66, 69, 71, 72, 75, 76, 77, 78, 80, 83, 87, 89, 90, 94, 101, 105, 107, 108, 112, 117, 119, 2, 3, 4, 11, 12, 14, 19, 20, 27, 28, 33, 36, 37, 39, 40, 43, 45, 49, 50, 52, 57, 58, 60, 63, 64, 67, 73, 78, 79, 83, 84, 87, 89, 93, 97, 98, 101, 102, 108, 112, 114, 115, 117, 0, 2, 3, 4, 5, 7, 8, 10, 12, 16, 17, 20, 27, 28, 31, 36, 43, 44, 47, 48, 50, 53, 54, 56, 57, 61, 65, 70, 73, 77, 78, 81, 83, 85, 90, 94, 97, 98, 101, 105, 106, 109, 112, 116, 2, 3, 5, 7, 16, 19, 20, 21, 23, 26, 28, 32, 35, 38, 39, 43, 46, 49, 55, 57, 61, 62, 66, 67, 70, 71, 72, 74, 75, 76, 78, 79, 81, 82, 89, 90, 91, 92, 94, 99, 100, 102, 103, 105, 109, 110, 112, 114, 115, 116, 117, 5, 11, 12, 21, 22, 25, 31, 37, 41, 43, 44, 45, 46, 48, 52, 58, 59, 60, 61, 66, 70, 74, 77, 80, 82, 83, 88, 90, 95, 98, 99, 100, 101, 103, 105, 106, 107, 109, 113, 114, 0, 1, 5, 7, 8, 15, 20, 21, 26, 27, 30, 33, 34, 46, 50, 54, 55, 56, 58, 59, 65, 67, 72, 76, 80, 84, 87, 91, 92, 94, 96, 97, 99, 100, 105, 107, 110, 112, 113, 114, 116, 117, 118, 119, 2, 6, 13, 14, 15, 17, 18, 19, 20, 22, 24, 32, 33, 34, 44, 46, 52, 56, 61, 62, 69, 72, 80, 89, 90, 91, 94, 96, 97, 98, 100, 102, 104, 111, 116, 118, 1, 2, 11, 12, 13, 14, 15, 16, 17, 22, 23, 25, 28, 29, 30, 33, 35, 37, 38, 39, 40, 43, 48, 49, 53, 54, 56, 57, 63, 66, 69, 70, 71, 72, 73, 74, 77, 78, 80, 86, 88, 90, 92, 93, 98, 99, 100, 103, 104, 108, 118, 2, 8, 12, 13, 20, 25, 28, 31, 32, 34, 35, 37, 38, 41, 43, 46, 47, 48, 50, 52, 53, 54, 55, 57, 65, 70, 72, 76, 78, 80, 82, 83, 84, 91, 93, 95, 97, 99, 101, 107, 109, 110, 111, 116, 119, 1, 6, 10, 17, 20, 21, 23, 27, 28, 30, 32, 33, 36, 39, 41, 42, 44, 45, 52, 56, 59, 60, 61, 67, 71, 76, 79, 80, 85, 87, 92, 94, 95, 96, 97, 99, 100, 102, 103, 104, 105, 107, 108, 109, 111, 115, 0, 1, 4, 6, 7, 12, 17, 18, 20, 27, 28, 30, 31, 33, 34, 35, 40, 41, 42, 49, 54, 56, 66, 67, 70, 72, 74, 75, 76, 77, 78, 79, 80, 81, 82, 90, 93, 95, 97, 101, 107, 109, 110, 111, 112, 114, 115, 117, 119, 3, 7, 10, 11, 13, 14, 15, 16, 23, 25, 29, 30, 33, 34, 35, 37, 38, 39, 40, 43, 47, 48, 49, 53, 55, 61, 62, 63, 64, 69, 70, 71, 78, 80, 83, 85, 86, 89, 90, 91, 94, 95, 97, 101, 103, 109, 110, 111, 113, 115, 116, 4, 5, 6, 12, 13, 16, 19, 24, 26, 27, 32, 33, 34, 35, 36, 47, 48, 56, 57, 59, 61, 62, 63, 68, 72, 73, 78, 82, 84, 85, 90, 91, 93, 96, 97, 103, 105, 106, 108, 109, 111, 112, 115, 116, 119, 2, 3, 5, 6, 7, 11, 14, 18, 21, 23, 25, 31, 32, 34, 36, 41, 42, 48, 52, 54, 56, 57, 58, 61, 65, 68, 69, 71, 74, 75, 76, 77, 79, 83, 85, 87, 88, 90, 95, 96, 97, 103, 105, 113, 115, 116, 117, 2, 8, 13, 14, 15, 18, 20, 23, 24, 26, 29, 30, 33, 35, 41, 46, 51, 59, 60, 61, 65, 66, 68, 69, 71, 73, 75, 76, 82, 86, 88, 91, 94, 96, 98, 100, 101, 111, 112, 114, 117, 118, 119, 1, 6, 7, 11, 15, 16, 18, 22, 25, 30, 34, 36, 37, 39, 40, 42, 45, 49, 50, 57, 59, 62, 65, 67, 69, 74, 75, 79, 80, 83, 85, 86, 88, 93, 95, 96, 102, 105, 106, 107, 110, 112, 113, 115, 118, 119, 0, 2, 3, 6, 8, 10, 11, 12, 15, 16, 19, 21, 26, 28, 29, 31, 32, 36, 39, 40, 42, 44, 48, 50, 55, 56, 57, 61, 62, 67, 71, 74, 76, 81, 84, 86, 90, 97, 99, 103, 104, 106, 107, 110, 111, 114, 116, 119, 1, 6, 8, 13, 14, 16, 17, 18, 21, 22, 25, 28, 29, 32, 35, 38, 39, 40, 41, 43, 49, 51, 55, 58, 60, 61, 62, 64, 69, 73, 76, 77, 78, 80, 81, 84, 87, 90, 93, 94, 96, 100, 103, 107, 114, 115, 0, 1, 2, 3, 4, 5, 8, 10, 11, 12, 13, 19, 21, 25, 26, 29, 31, 32, 35, 39, 50, 51, 52, 53, 60, 61, 64, 67, 70, 75, 76, 77, 80, 84, 86, 90, 91, 93, 94, 95, 97, 99, 100, 102, 103, 106, 111, 115, 116, 0, 2, 4, 5, 7, 8, 9, 10, 11, 12, 13, 19, 20, 22, 23, 25, 26, 28, 31, 32, 34, 37, 38, 39, 41, 44, 47, 48, 49, 53, 54, 57, 60, 62, 65, 66, 73, 74, 76, 77, 80, 84, 89, 91, 95, 97, 98, 105, 106, 109, 110, 111, 118, 0, 1, 6, 11, 12, 18, 19, 25, 31, 34, 36, 37, 43, 46, 49, 51, 53, 57, 64, 67, 69, 70, 71, 72, 75, 81, 85, 86, 92, 93, 100, 101, 102, 107, 112, 116, 119, 4, 5, 6, 11, 12, 15, 16, 19, 27, 28, 30, 32, 34, 36, 37, 38, 40, 44, 45, 47, 50, 51, 52, 53, 54, 55, 57, 61, 62, 63, 64, 65, 68, 71, 72, 75, 78, 79, 81, 88, 90, 91, 93, 95, 96, 98, 102, 107, 111, 113, 114, 115, 117, 4, 5, 9, 10, 17, 21, 22, 24, 25, 32, 34, 35, 37, 38, 52, 60, 61, 63, 65, 66, 68, 73, 75, 77, 78, 80, 81, 83, 86, 88, 89, 90, 97, 98, 99, 100, 102, 105, 108, 109, 110, 115, 117, 118, 119, 1, 2, 3, 9, 11, 14, 16, 19, 20, 21, 25, 27, 29, 30, 32, 35, 37, 41, 44, 48, 49, 51, 54, 59, 60, 67, 69, 70, 72, 74, 75, 78, 84, 86, 87, 94, 95, 97, 99, 106, 111, 113, 114, 117, 1, 2, 6, 10, 11, 12, 14, 15, 16, 17, 18, 20, 21, 24, 26, 27, 30, 32, 33, 35, 38, 42, 44, 45, 50, 53, 54, 55, 58, 60, 65, 67, 69, 71, 72, 76, 78, 81, 83, 89, 91, 93, 94, 97, 98, 99, 103, 104, 106, 110, 111, 114, 117, 119, 0, 3, 4, 9, 11, 12, 19, 24, 28, 32, 35, 36, 41, 43, 45, 50, 52, 54, 55, 60, 63, 64, 67, 69, 70, 71, 73, 74, 78, 81, 85, 86, 91, 92, 95, 99, 102, 103, 104, 105, 106, 107, 108, 110, 112, 113, 115, 118, 119, 5, 8, 9, 10, 12, 13, 16, 18, 20, 21, 26, 27, 34, 35, 40, 43, 45, 46, 50, 51, 52, 53, 60, 63, 67, 74, 75, 76, 81, 84, 85, 86, 88, 89, 91, 92, 94, 95, 101, 104, 107, 111, 112, 113, 115, 2, 3, 8, 10, 11, 12, 15, 17, 21, 25, 27, 28, 32, 33, 34, 35, 37, 39, 43, 45, 48, 49, 50, 51, 53, 55, 56, 58, 61, 63, 64, 66, 68, 72, 73, 76, 81, 82, 84, 89, 90, 91, 93, 98, 99, 100, 101, 103, 108, 114, 115, 1, 3, 5, 8, 11, 12, 13, 14, 15, 16, 18, 22, 23, 28, 30, 31, 32, 37, 42, 45, 48, 53, 58, 66, 67, 69, 77, 78, 80, 81, 83, 85, 86, 94, 97, 98, 100, 102, 104, 105, 106, 107, 108, 112, 116, 117, 119, 1, 8, 15, 16, 17, 20, 23, 24, 28, 29, 30, 31, 32, 38, 44, 47, 49, 50, 54, 58, 60, 63, 69, 74, 79, 82, 85, 91, 94, 96, 98, 101, 103, 105, 108, 115, 116, 118, 119, 1, 4, 6, 8, 11, 12, 15, 16, 17, 20, 21, 26, 29, 34, 35, 37, 42, 47, 50, 51, 52, 54, 56, 62, 67, 70, 71, 74, 75, 76, 85, 86, 89, 90, 92, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 107, 108, 109, 111, 112, 115, 117, 3, 7, 8, 13, 18, 21, 23, 35, 36, 39, 41, 45, 46, 47, 51, 56, 64, 68, 70, 76, 80, 81, 82, 84, 86, 88, 92, 93, 95, 96, 101, 102, 103, 104, 106, 108, 110, 111, 114, 117, 0, 1, 3, 10, 11, 14, 15, 16, 18, 20, 22, 23, 24, 28, 30, 32, 33, 35, 37, 38, 40, 42, 44, 46, 50, 51, 54, 61, 62, 65, 66, 67, 70, 74, 75, 76, 79, 80, 81, 84, 85, 92, 93, 100, 102, 103, 104, 108, 110, 111, 112, 113, 114, 115, 116, 118, 1, 2, 7, 16, 18, 19, 20, 24, 25, 30, 31, 33, 37, 40, 42, 43, 48, 49, 55, 57, 59, 61, 62, 66, 67, 68, 70, 71, 72, 74, 75, 76, 77, 79, 81, 84, 85, 86, 89, 92, 94, 97, 104, 109, 111, 113, 116, 0, 1, 10, 16, 20, 21, 23, 26, 27, 33, 34, 35, 36, 37, 38, 39, 44, 47, 50, 52, 57, 58, 60, 62, 64, 65, 66, 68, 71, 74, 76, 81, 83, 84, 85, 86, 89, 96, 98, 99, 100, 101, 106, 107, 109, 112, 113, 114, 118, 119, 0, 2, 4, 5, 8, 9, 23, 30, 31, 32, 34, 37, 42, 43, 45, 48, 56, 60, 64, 65, 66, 67, 68, 71, 75, 76, 84, 87, 88, 89, 93, 97, 100, 102, 108, 109, 110, 111, 116, 117, 118, 119, 0, 3, 5, 8, 11, 15, 24, 25, 27, 30, 32, 34, 41, 45, 46, 48, 51, 53, 62, 70, 73, 78, 79, 85, 88, 90, 93, 95, 98, 99, 100, 101, 105, 106, 107, 108, 109, 112, 117, 118, 2, 8, 12, 13, 15, 16, 17, 20, 23, 26, 27, 29, 34, 37, 39, 42, 43, 46, 48, 49, 51, 57, 62, 63, 66, 70, 71, 74, 76, 78, 83, 85, 86, 87, 89, 94, 97, 98, 101, 102, 103, 105, 109, 112, 113, 115, 117, 118, 1, 4, 8, 9, 10, 15, 17, 18, 21, 24, 32, 37, 40, 46, 48, 51, 53, 59, 60, 64, 68, 70, 75, 77, 78, 79, 80, 84, 85, 87, 88, 90, 92, 93, 99, 102, 103, 104, 106, 109, 115, 117, 118, 0, 13, 17, 19, 20, 21, 24, 25, 26, 27, 29, 31, 32, 33, 37, 39, 40, 41, 42, 45, 47, 49, 56, 58, 59, 62, 63, 64, 66, 79, 84, 85, 86, 91, 92, 95, 96, 101, 104, 105, 107, 108, 109, 112, 114, 115, 116, 118, 2, 4, 6, 11, 12, 14, 18, 19, 23, 27, 28, 30, 32, 41, 42, 43, 45, 47, 49, 55, 57, 59, 60, 61, 63, 65, 66, 70, 74, 77, 79, 82, 85, 86, 87, 89, 96, 98, 100, 101, 102, 107, 108, 111, 113, 114, 118, 0, 1, 3, 7, 8, 10, 11, 17, 20, 21, 22, 23, 24, 26, 27, 28, 29, 33, 37, 39, 41, 46, 51, 53, 55, 56, 58, 62, 63, 65, 66, 69, 71, 73, 75, 76, 83, 94, 96, 97, 103, 104, 106, 107, 113, 114, 115, 117, 118, 0, 2, 4, 10, 12, 13, 14, 17, 20, 25, 30, 38, 39, 41, 42, 44, 46, 51, 53, 54, 56, 60, 69, 74, 79, 80, 82, 87, 88, 89, 90, 92, 93, 94, 95, 98, 107, 109, 110, 111, 114, 117, 118, 0, 1, 2, 7, 11, 13, 16, 17, 22, 23, 24, 28, 34, 36, 38, 39, 40, 42, 46, 49, 57, 65, 75, 76, 78, 80, 86, 93, 94, 98, 103, 105, 113, 2, 4, 6, 7, 8, 12, 14, 19, 21, 24, 25, 27, 28, 30, 32, 34, 37, 38, 39, 42, 43, 45, 47, 48, 51, 52, 59, 65, 67, 68, 70, 72, 73, 74, 75, 76, 84, 85, 88, 90, 94, 96, 99, 104, 106, 107, 109, 110, 113, 114, 117, 118, 0, 1, 9, 13, 16, 17, 18, 21, 24, 26, 27, 28, 31, 32, 33, 34, 35, 36, 39, 40, 41, 43, 45, 46, 52, 54, 55, 57, 64, 65, 66, 68, 69, 72, 73, 74, 75, 76, 78, 79, 80, 84, 94, 98, 102, 104, 111, 112, 114, 118, 6, 7, 10, 12, 13, 14, 20, 21, 25, 26, 31, 32, 33, 34, 35, 36, 43, 44, 52, 56, 58, 60, 66, 73, 75, 79, 81, 82, 89, 93, 94, 95, 96, 98, 99, 100, 102, 105, 106, 107, 110, 114, 117, 118, 119, 0, 4, 6, 8, 13, 14, 15, 18, 22, 24, 28, 30, 34, 36, 37, 38, 39, 40, 43, 46, 55, 56, 57, 58, 59, 60, 62, 63, 64, 65, 67, 69, 71, 74, 75, 76, 77, 79, 81, 83, 86, 87, 93, 96, 98, 104, 108, 109, 112, 115, 116, 0, 2, 3, 4, 10, 11, 13, 14, 15, 16, 18, 20, 23, 27, 31, 35, 36, 38, 41, 44, 45, 47, 48, 51, 55, 57, 62, 65, 68, 71, 73, 74, 75, 76, 78, 80, 81, 82, 83, 86, 87, 88, 89, 91, 100, 102, 103, 105, 106, 108, 110, 112, 113, 114, 119, 5, 10, 12, 14, 16, 19, 20, 21, 23, 27, 28, 31, 36, 38, 41, 44, 49, 50, 52, 59, 60, 61, 62, 63, 69, 71, 72, 75, 77, 79, 80, 83, 86, 88, 91, 94, 95, 99, 100, 102, 103, 104, 105, 106, 107, 108, 111};
pfloat num_err_Apr[56699] = {2.124861001131416460e-01, 2.921817551780381966e-02, 1.310969508924434215e-02, 6.861233278927031387e-01, 4.046844186324097259e-01, 5.560451641595731687e-01, 7.411977755147829416e-01, 2.504747335540464387e-02, 3.870618994709427718e-01, 6.179218707553069123e-02, 8.903756834508435025e-01, 5.971088348054340300e-02, 7.225473350242129777e-01, 8.276621743337785331e-01, 1.079975243074306618e-01, 2.726023362671928241e-02, 9.906657489162329355e-01, 6.862825970147155008e-01, 8.204041977369775918e-01, 8.450036535292753115e-01, 8.456700107670143129e-01, 6.295905634316039112e-01, 7.781765773105442374e-01, 4.449692941759638698e-01, 6.409949704936485082e-02, 1.513142141270684693e-01, 5.312101262370607646e-01, 7.941170640901558109e-01, 8.111368818110100687e-01, 8.316653615137972189e-01, 1.192495607374780831e-01, 1.152071856313489073e-01, 3.643228408292697451e-01, 1.886226070727623771e-01, 6.040258058939249608e-01, 9.264380893418689977e-01, 7.735286861596452068e-02, 5.026733453615049863e-01, 9.639757374529392964e-01, 1.385319813442299763e-01, 1.879765278700572945e-02, 8.781989914192509517e-01, 7.570569599093548430e-01, 7.284115096791599075e-01, 6.296025712559307763e-01, 2.549980127926086415e-01, 1.109133312280573963e-01, 4.837040829920077334e-01, 1.650419626606524359e-01, 7.430931241056708547e-01, 9.060993847189318107e-01, 3.512867560160673475e-01, 8.365392962723646741e-01, 1.634701665295179296e-01, 1.505602769959835940e-01, 2.607424328412885073e-01, 4.871026478021374118e-01, 7.617119146580395017e-02, 4.969648286795967373e-01, 9.976327680198016079e-01, 7.287395166833614546e-01, 3.215089038699177615e-01, 3.993252181214420049e-01, 6.917557867877795197e-03, 8.734317377943366933e-01, 4.332727369294209763e-01, 6.995733140377705661e-01, 4.880677295598193077e-02, 8.969685158269324887e-01, 8.486084839713425865e-01, 7.848055306281991328e-01, 4.602145564284236268e-01, 2.263873691891379325e-01, 7.194558831484965111e-01, 7.582711946480235055e-01, 9.736600941615333182e-01, 3.673292735534042786e-01, 2.275398864685171663e-01, 2.239389977641733157e-02, 9.102108691874920554e-01, 3.696847572997488118e-01, 3.723626883849909808e-01, 8.149699459879308217e-01, 2.275514923957845936e-01, 6.335661293124696947e-01, 2.374935635282690582e-02, 1.868661781310743675e-01, 8.915197767757722103e-01, 8.574629400989699501e-01, 4.715162189538384951e-01, 6.847882344213146455e-01, 3.927882419982973161e-01, 4.957084828960996448e-01, 2.822788021130047398e-02, 1.084080838573508315e-01, 1.439568101443757797e-01, 9.504399971169849026e-01, 5.616349140984333577e-01, 1.804345257511109912e-01, 7.168934697868555306e-01, 4.254698823636816896e-02, 1.022285419528849992e-01, 8.159396104685279205e-01, 8.170063140480784414e-01, 2.358371669305328044e-01, 2.225682560462396639e-02, 1.321266066237119889e-02, 6.222308874708593063e-01, 9.278587292289020017e-01, 7.428649594377848553e-01, 4.486944338453981163e-02, 7.653452602384969161e-01, 9.894051993150803082e-01, 6.254890876952019507e-01, 5.769110639243216765e-01, 2.393848894250781012e-01, 1.061674997789858466e-01, 9.615493500877396113e-03, 1.507905596693128181e-01, 5.260898923642967073e-01, 2.004059516147872408e-02, 5.091350706665458414e-01, 9.465927907703256539e-01, 5.995429714094723250e-01, 8.937098036812222146e-01, 4.079618795415728694e-01, 6.464526050268517565e-01, 8.128037094209408231e-01, 5.642990815210319200e-01, 9.106865243912081187e-01, 2.387280395439277392e-01, 1.448056140015240890e-02, 6.099012433739815497e-01, 6.178638736561108402e-01, 4.321573623626274729e-01, 3.012859490483455471e-01, 3.714047961279600685e-01, 6.718717498087404261e-01, 3.019347518150218290e-01, 4.565406601364097594e-01, 4.424552655085178254e-01, 2.780260649983006260e-01, 2.459551061557069818e-01, 3.450484802516006755e-01, 7.464706416162618652e-01, 2.893968639781492880e-01, 5.999059461280203953e-01, 1.360726872855755332e-01, 7.576673071552622041e-01, 4.438756542146760631e-01, 1.248511161515240414e-01, 2.293346028054171204e-01, 3.971486610544133211e-01, 8.615195226081886481e-01, 7.869340912575824021e-01, 3.571619566626981629e-02, 3.970131708354041338e-04, 9.186218257554812361e-01, 7.857089396143487336e-01, 1.846516662409535946e-03, 6.486643251822906686e-01, 3.083040352972608034e-01, 7.865436469075495207e-01, 2.884677000250666090e-01, 9.895460753375784346e-02, 3.294121536507608750e-01, 4.470414782351801453e-01, 7.720630317984469304e-01, 4.970883565936185522e-01, 5.828587624556796909e-01, 5.500240587375547774e-01, 7.764031580767475349e-01, 8.047942104238978711e-01, 1.500625269717719423e-01, 4.551474112762164403e-01, 7.323216857755848741e-02, 2.810509292593822428e-01, 3.889119208313755044e-02, 5.507022449645118112e-01, 8.150011682388003109e-01, 2.992839955543019625e-01, 3.748880970910202781e-01, 9.882566414772493424e-01, 7.637668162197469579e-01, 7.181151143639774581e-01, 3.863881133557472980e-01, 7.943200069156839405e-01, 9.107625115966905271e-01, 6.622417772264707625e-02, 8.599805496052675968e-01, 1.924048101697359570e-01, 5.642184048998697410e-01, 1.461347927873488106e-01, 4.052853558427390451e-02, 5.807914679529596613e-02, 9.055691298158558000e-01, 3.281568352194293992e-01, 1.720734331746975321e-01, 8.951359627815049791e-01, 9.548392201038994331e-01, 9.092942911874350997e-01, 5.306611047221096444e-02, 2.346649772503661691e-01, 2.317541561098043212e-01, 8.938281204367370947e-01, 3.296430822082051237e-02, 7.907452224818295461e-01, 5.357778355431223050e-01, 8.003644574507086384e-02, 5.793392585698663444e-01, 3.126711077129566974e-01, 5.256063236754314749e-01, 9.729982861934314275e-01, 4.770302327845424295e-01, 5.264696798116007548e-01, 6.240383531322836186e-01, 7.498990527437255915e-01, 6.332007548323039803e-01, 4.918419565408913008e-01, 6.819011223347083428e-01, 1.615208459043115941e-02, 5.887718918245751776e-02, 7.503485029480138069e-01, 1.717437666915964389e-01, 3.907488757840511112e-02, 1.018383980291410473e-01, 7.862709763792853357e-01, 9.316723256740617742e-01, 5.353821949227467458e-01, 9.269637583020282623e-01, 7.019508006409377332e-01, 5.309532860232233364e-01, 3.342201686158411400e-01, 5.885588165690065487e-01, 1.061484139539086990e-01, 3.319682281533598567e-01, 7.949922201777881448e-01, 6.537591409125474984e-01, 3.060809286274063790e-01, 7.202179217116329024e-01, 3.523958265530889866e-01, 8.706493866220060829e-02, 2.991738784399854412e-01, 1.929355263864848125e-01, 4.647451931630761091e-01, 7.325372143901807132e-01, 4.529920753555715107e-01, 1.644363979786100383e-01, 6.758058757480949197e-01, 7.827003940052565945e-01, 5.617017519528320069e-01, 7.211569262555913573e-01, 1.431299453922580955e-01, 5.331803244735913022e-02, 6.394801891649825043e-01, 6.636735270986486857e-01, 4.881034957554426512e-01, 5.274433037791954881e-02, 1.085853806854634312e-01, 2.615222220853398172e-01, 8.975051663679413094e-01, 8.490720800928781564e-01, 2.176709619422857456e-01, 7.216836865405363843e-01, 9.546807954787296380e-01, 6.866292659242948515e-01, 9.045368978612154665e-02, 6.102633012635547138e-02, 9.693892680085509916e-02, 2.680944663278000406e-01, 9.634045425858589473e-01, 7.430669841857583391e-01, 1.162011521036394462e-01, 8.918121985496244575e-01, 4.843391002048733629e-01, 5.873463331575390356e-01, 8.377664214837985401e-01, 9.829320477413140411e-01, 1.262513976129186755e-01, 6.252798517142607038e-01, 9.721830562170209467e-01, 5.399633909348056093e-01, 8.427398360817565104e-01, 6.047279662205461426e-01, 8.695971064968400777e-01, 3.638392325465529542e-02, 8.174224042975340998e-01, 3.736409449500109892e-01, 5.226997195078036951e-01, 9.027941397422897807e-02, 1.587704553112092853e-01, 4.761910225939054442e-01, 4.548468884565338155e-01, 3.538389886748292135e-01, 2.116241258805118819e-01, 5.006022531601657111e-01, 3.593978960622694063e-01, 1.444634945866160869e-01, 7.611810272653328491e-02, 6.170266332154908939e-01, 7.478728852868862242e-01, 2.161476544829603885e-01, 5.732500523236067763e-02, 8.159904460331607323e-01, 6.715608712004432768e-01, 7.024830242477486664e-01, 5.798514370130669615e-01, 9.474299050590229143e-02, 1.775100774875809639e-01, 4.645009351961317812e-01, 2.226234279268239913e-01, 6.591738373319793176e-01, 9.233865617330785369e-01, 2.447792505382373821e-02, 3.871965778551213488e-01, 6.517235491494951516e-01, 5.692190360332006760e-01, 7.624936296464936147e-02, 8.220796196888462415e-01, 1.135321042019797472e-01, 3.926229035327354899e-01, 8.747503908293985386e-01, 7.926341337468282289e-01, 8.843744380750315215e-02, 5.212551245083224712e-03, 1.591004959080696834e-02, 3.127363534408568735e-01, 5.482003454572599299e-01, 7.953236376966562604e-01, 6.034938960490382476e-02, 3.094493125400615274e-01, 5.291288744770109576e-01, 1.409458098662653425e-01, 5.691944045828276622e-01, 3.123440457256304592e-01, 9.546536298082605176e-01, 5.417109197356193562e-01, 2.326838957417031173e-01, 6.568658884862432767e-01, 3.465347066440915280e-01, 5.386870841421229628e-01, 4.224612322466508862e-02, 9.196249089308709823e-02, 9.476001823495618925e-01, 3.910960556516154818e-01, 3.211044801518034286e-01, 7.484639717924680691e-02, 4.133680435766111105e-01, 8.341384174105787030e-01, 4.531226316383931141e-01, 7.340188342115181452e-01, 5.067796631421673803e-01, 4.826728887845176952e-01, 6.502521953591751114e-01, 8.911206729172925778e-01, 9.093104743620199493e-01, 4.944337072476807093e-01, 3.960597413872095074e-01, 5.144659317354449701e-01, 2.597050874041592627e-01, 8.550185460525745462e-01, 8.210100529954840187e-01, 7.436021391475707010e-02, 3.005116835898544725e-01, 3.134408882370924854e-01, 3.973141956426566312e-01, 6.474188080583836991e-01, 4.982246792207127850e-01, 7.745083891264055165e-01, 9.576179985137696082e-01, 7.619093655019428812e-01, 1.129644352733429891e-01, 6.919479205049008375e-01, 7.176475627201801544e-01, 7.165642103724402245e-01, 3.756939210590348743e-01, 2.237767277599349292e-01, 5.427328577633497853e-01, 6.577755160676607149e-01, 7.969400799389785017e-02, 9.882669890349519148e-01, 7.089152141805740159e-01, 5.346125968214603397e-01, 8.284751566794072986e-01, 3.821429422018587374e-01, 2.986431891105787231e-02, 3.319942017564184167e-01, 1.328538105886593705e-02, 8.281874141734356376e-02, 1.614336256235326950e-01, 3.942397563371591307e-01, 6.953932574290888624e-01, 1.219726240309783466e-01, 9.824374600033540517e-02, 1.051453500054188861e-01, 1.075044733662633978e-01, 8.488284941791092164e-01, 6.495848063037834574e-01, 8.892262067946307136e-01, 1.252075625442140294e-01, 5.954403800531412466e-02, 9.409406758732336007e-01, 4.918188423332821579e-01, 2.395366488615955358e-01, 2.524327176691804620e-01, 5.163458519899298826e-01, 7.570204228919120704e-01, 6.860117287094091854e-02, 6.915839781608914549e-01, 5.162704892100796611e-02, 3.303608792703420782e-01, 1.817949211996447156e-01, 7.451857829447781079e-01, 8.633678522761493168e-01, 9.742396099281737110e-01, 8.648952344602753861e-01, 3.591846082694200026e-01, 9.056985434498995291e-01, 1.384990303590953598e-01, 9.697823295197774973e-01, 5.092298495232787658e-01, 2.915387160319035664e-01, 1.048877208152283608e-01, 1.277527565280698885e-01, 5.309480606731330488e-01, 2.572534454277061178e-01, 9.984463181649904095e-01, 3.336701137638414250e-01, 9.744738538046316956e-01, 8.414649270550145221e-01, 8.075022367280677571e-01, 1.040971663089060723e-01, 3.250345314687716480e-01, 2.225928708648400589e-01, 3.002414543287451609e-01, 3.210639943447316513e-01, 8.333222344674324766e-01, 6.524356743464977404e-01, 8.976109185480740660e-01, 7.023421976371106989e-01, 4.482700804143887607e-01, 3.399362411675115880e-01, 4.021547798919291594e-01, 7.085255860974203346e-01, 5.475488786098956506e-01, 5.361305105233343804e-01, 6.538720913716483674e-01, 5.080467146535829759e-01, 5.628409379775665133e-01, 3.329890341662311570e-01, 7.667866712345884350e-01, 9.322229640037893450e-01, 3.142735267592675075e-01, 3.522644557437414892e-01, 1.006771309964538674e-01, 8.251748452535182521e-01, 5.566157984336627118e-01, 2.684756465382755475e-01, 2.760229525681713314e-01, 5.413147301003802259e-01, 7.268584253497099024e-01, 3.416352591226046731e-01, 8.724506554894378985e-01, 5.194860972623108891e-02, 6.508990490135919682e-01, 6.695201768015864863e-01, 3.749718720981564113e-01, 3.244242745266479044e-02, 4.775254032069820576e-01, 4.886282694543733207e-01, 4.418410824716118568e-01, 1.882157804426659031e-01, 4.695012301961254964e-01, 7.814158898769160144e-01, 8.646879735113351118e-02, 6.616625777673038056e-02, 3.803630949730408273e-01, 2.782918612337508257e-01, 7.516056696559976213e-01, 6.816241450360166487e-01, 1.936170484524434299e-01, 8.936590788974382304e-01, 5.756238481752303793e-01, 6.274861552508883555e-01, 8.580728755898360260e-01, 7.420229338348004466e-01, 9.526230714948860090e-01, 4.081354312606129686e-01, 3.340924713025594794e-02, 8.731398849565240317e-02, 2.544728911218147038e-01, 6.469208662384230424e-01, 1.366937032667062957e-01, 6.961886047107557207e-01, 3.652250679179431248e-01, 7.802545734031597346e-01, 8.255331025764861552e-02, 2.502705516205164238e-01, 8.617105937158620055e-02, 3.930731600473080789e-01, 1.671156849500554653e-01, 6.808756197175213076e-01, 5.535695748640979685e-01, 7.492867541742334603e-02, 2.990238339443419546e-01, 9.632116760367177566e-01, 3.698095697935375736e-01, 9.556194048930809481e-01, 9.883589693011741728e-01, 1.836876590652885555e-01, 4.276740337260666047e-01, 5.570023844631000198e-01, 5.909127758219117066e-01, 3.223521299275955987e-01, 3.652653445163109303e-01, 8.499843583801136582e-01, 3.804819124430164901e-01, 1.958643167606633471e-04, 8.129236979800077423e-01, 5.481586634954003223e-01, 4.435460222480216985e-01, 1.072743609463249620e-01, 9.216260361949876190e-01, 4.493774177635574407e-01, 2.822172128345686315e-01, 3.466298175883090749e-01, 4.599312740827479207e-01, 7.096172632048436402e-01, 4.536733119002434034e-01, 8.651598638482435044e-01, 4.521273206112949028e-01, 4.872573438783110444e-01, 4.103205795396435152e-01, 3.224112164553525894e-01, 5.390698916053368039e-01, 9.641602234497549384e-01, 8.287584974377146807e-01, 2.674251999063722574e-01, 2.725160851954895880e-01, 3.133300181619565472e-01, 6.554550234959549693e-02, 3.124644395420632104e-01, 4.252037889685611471e-01, 7.039384584335282025e-01, 9.616315642574516653e-01, 8.917475920583239901e-01, 9.175545318011895102e-01, 8.861935837282275408e-01, 2.845033117566034830e-01, 9.526940836525651379e-01, 8.755395807080377235e-01, 6.311619605920318898e-01, 3.109730365254364526e-01, 3.911237208245826324e-01, 7.100045005160459111e-01, 9.949114273551935561e-01, 7.834500023271659952e-01, 7.820867969513933815e-01, 9.280275523361147805e-01, 3.436247574599415877e-01, 8.747230058470577552e-01, 1.002079120137833179e-02, 7.920360344860258861e-01, 8.432814010581306530e-01, 7.362881219824738421e-01, 1.007610276313076758e-01, 6.202374822289755674e-01, 8.649088582820714244e-01, 5.184807318785564778e-01, 8.601284092816298132e-01, 3.037256916788132477e-01, 8.724243251215604289e-01, 1.668917253461665862e-01, 5.445640415080967855e-01, 7.638873963958346947e-01, 5.522063675642937541e-01, 9.757696621906561951e-01, 4.150660912119126800e-01, 1.238328757654754732e-02, 5.978498439378184814e-01, 7.896968075294166223e-01, 6.457243494859375987e-01, 6.756476090139011959e-01, 8.329696044933091459e-01, 6.236192642535121067e-01, 9.399061273536796213e-01, 6.523205900033660631e-01, 8.836831207582075409e-01, 7.341997322325785058e-01, 8.015687084235351145e-01, 5.498170356487993432e-02, 6.060187982740380258e-02, 4.634132167922817569e-01, 5.360182972416864811e-01, 9.486190280179106482e-01, 8.656387130037404010e-01, 9.051716034411900758e-01, 3.627458350518626418e-01, 2.057430101691530566e-01, 9.738979951634137988e-01, 9.524215476171128403e-01, 7.210278560247356250e-01, 9.455734386173586525e-01, 2.759062077785953693e-01, 8.108252364667537515e-01, 3.076637286803774463e-01, 5.494863037300745656e-01, 4.388179862674521647e-01, 6.115577503930744729e-01, 6.160008330969527629e-02, 3.560482235558893316e-01, 5.185329365548095870e-01, 3.299619615146205942e-01, 9.174754555543721546e-01, 9.739339005598638410e-01, 7.464544327002482493e-01, 2.814588602918337568e-01, 8.177078759124779550e-01, 8.715218548672313270e-01, 9.885936754733715137e-01, 6.995726541887620220e-01, 6.037263641611491094e-01, 6.927126468658235947e-03, 6.421229771990560886e-01, 1.800255022677006433e-01, 5.156129632988123435e-01, 8.290498046723039360e-01, 5.311015207844649311e-01, 4.230371190434557005e-01, 9.064331744787529344e-01, 3.575114993238242000e-01, 2.742243716395347253e-01, 2.128491456572431662e-01, 3.005923314816602576e-02, 2.314252371474461167e-01, 1.086650655087356421e-01, 2.049932129390069635e-01, 7.869443493055572336e-01, 4.597785577571195104e-01, 2.948140258636321454e-01, 8.247565861943448873e-01, 2.191771146356827349e-01, 8.591220761931735173e-02, 7.378623990487680473e-01, 5.546216465672867413e-01, 5.443074224550776830e-01, 2.336059665429361387e-01, 3.644981735953093938e-01, 7.705543390908932144e-01, 4.837361407362869570e-01, 1.904789499953310483e-01, 3.241623668188731711e-01, 4.747667841976793146e-01, 9.881009990098152951e-01, 9.396707314034952185e-01, 1.641257385487462084e-01, 3.755916257540417580e-02, 4.241986911126152116e-01, 1.034311880452899596e-01, 2.864443881334469144e-01, 3.226681493705132325e-02, 9.079178558076380634e-01, 2.873486278930031945e-01, 7.428164979824162240e-01, 4.654028329250838314e-01, 3.294403250805454098e-02, 6.691564105980485344e-02, 4.305499861144193585e-01, 1.500254464332553550e-01, 7.275852321153787328e-01, 6.832392828298937681e-01, 7.841482127825557535e-01, 1.043188300036823613e-01, 8.635273751830160327e-01, 3.486361261635874120e-01, 7.923333454137798659e-01, 2.307041306634519950e-01, 7.552340411941397269e-01, 3.989551628455688670e-01, 4.246466376685979760e-02, 6.083494015877078942e-01, 1.814908920865296871e-01, 6.449628719609578065e-01, 1.236503888483738017e-01, 2.692018438200233788e-01, 2.343726990724352699e-01, 1.315649811541413361e-01, 1.470656975027583302e-01, 3.146532899993188526e-01, 8.727892430991225359e-01, 2.149344021330602261e-01, 2.628957999020483105e-01, 1.794412982839378723e-01, 4.387499532074364827e-01, 6.715825708468663446e-01, 7.115736425548875310e-01, 2.633758490012763284e-02, 2.719698404479199971e-01, 8.671077180134475482e-01, 5.394196215118456789e-02, 8.022362192195446884e-01, 7.433661781056179196e-02, 7.930821911104593003e-01, 5.173091976291087635e-01, 3.628145536281517092e-02, 7.689092775659723822e-01, 3.310171343188479387e-01, 7.351685672898553570e-01, 4.271390976019671104e-01, 6.129506685788140841e-01, 6.247883681418293922e-02, 5.289212965653710130e-01, 4.425490062585074602e-01, 3.795479339312157752e-01, 3.011567739836974456e-01, 7.355410093996842535e-01, 9.954625984419789297e-01, 4.619106727547835078e-02, 2.534465276285142177e-01, 4.441392578693932891e-01, 7.169179933733148546e-01, 5.975130943224824520e-01, 1.277134229318364622e-01, 6.227516577706107004e-01, 2.895163426476889956e-01, 1.469038904578462978e-01, 9.162323001487967522e-01, 2.621082879015667610e-01, 1.219297886403830772e-01, 4.599558472587969571e-01, 8.122315393916528237e-01, 5.919953878355136423e-01, 9.026914607690373904e-01, 9.645775203312928481e-01, 1.216264294503174026e-01, 5.324182379121380482e-01, 3.678448618501666684e-02, 4.645448535713976312e-01, 1.293482205258771056e-01, 1.053998293932210534e-01, 7.558030761668821373e-01, 2.823328218597974670e-01, 9.125821962948242883e-01, 2.453030704135769624e-01, 3.643997928518569740e-01, 5.227006300828611618e-01, 3.299797236361294850e-01, 2.911307895209426788e-01, 4.002988966818942229e-01, 4.110817197410281953e-01, 8.146534174829312969e-01, 1.499358552141136502e-01, 3.150633176101476640e-01, 6.763556380253988864e-01, 8.964423902710533243e-01, 8.702649832824820297e-01, 9.546140968353431511e-01, 5.202378936751307359e-01, 2.134074057874488228e-01, 3.151294007436908906e-01, 3.480246512928628633e-01, 6.198020228942406895e-01, 7.932945568208783493e-01, 6.509056764973407683e-01, 2.689710691298597967e-01, 8.574689849096354122e-01, 1.158845221614670934e-01, 1.714344674261748247e-01, 9.198646605975848711e-01, 9.174778211468344047e-01, 9.892358888139445305e-01, 2.937240435655934512e-01, 9.146906966563631558e-01, 3.267500199124500626e-01, 7.178456951828354748e-01, 4.623377282862338733e-01, 2.156764113103876723e-01, 5.595769703259328987e-01, 3.925149982829739814e-01, 7.169208187866068505e-01, 9.678761212414397352e-01, 9.757904420720011629e-01, 1.549243917352799427e-01, 9.232706186129189252e-01, 6.406865228483688002e-01, 8.094164840178645903e-01, 6.496860118225078473e-01, 1.730834856712933911e-01, 5.253302233507434194e-01, 2.420727626102952279e-01, 8.533583218329977571e-01, 6.579218477863826298e-01, 8.415760403463824479e-01, 7.410201379347605144e-01, 1.416391769935964468e-02, 8.666663889002338417e-01, 9.758127110755903111e-01, 9.889935688813521475e-01, 7.497185164299707827e-01, 4.619873832327756058e-02, 5.995872514994556868e-01, 5.435444746332650512e-01, 6.602556448732138650e-01, 1.857687778823409464e-01, 1.657951870229554259e-01, 8.455840109202550359e-01, 6.261860317963444666e-01, 7.762279180047575444e-01, 8.932778159767551518e-01, 9.852662646117182899e-01, 2.641868818012737055e-02, 4.998554761753415399e-01, 5.354938562888891251e-01, 6.292738565368459769e-01, 3.120227583328087917e-01, 4.514141883008420120e-01, 5.796471000137021212e-01, 8.684734558801984194e-01, 3.891142645123274457e-01, 7.396876854741145646e-01, 7.022147564667370334e-01, 3.023770132607027650e-01, 4.043551431625233006e-01, 7.268414967215951206e-02, 6.591751251766845288e-01, 4.403781022872755302e-01, 6.334975941753320239e-01, 6.656061691525504420e-01, 1.676120094915423131e-01, 8.932068710565330694e-01, 1.546077836169806319e-01, 9.632527645051902621e-01, 7.065226978810588976e-02, 4.178094779887950305e-01, 9.032650957216936671e-01, 9.140749261253738878e-01, 3.935917298059862790e-01, 4.484246788344599388e-02, 3.734872329119753309e-01, 2.976083148898866493e-01, 5.888487752709803402e-01, 1.689857466275500875e-01, 8.486527020138149302e-01, 6.697755090914337961e-01, 4.351538771423328344e-01, 7.784622144189108361e-01, 2.457843186189371532e-01, 5.375498866470052040e-02, 7.103599837264882311e-01, 1.638137626334905395e-02, 6.818863948481705961e-01, 5.262901284429685050e-02, 4.219156206649757324e-01, 4.230945889352118183e-02, 4.619678127955099134e-01, 9.632622935026663447e-01, 1.112756264844629861e-01, 9.024010166638749553e-01, 9.209424525873659284e-02, 3.971720165432127136e-01, 4.921484473396406933e-01, 4.873316019505703478e-01, 5.846758914440133292e-01, 4.528786501294017053e-01, 2.845735724071829509e-01, 4.234297349011091893e-01, 5.478615318950104118e-01, 6.741102131344202109e-01, 5.129385880982481050e-01, 7.271249322345062494e-01, 3.404263589832663417e-01, 4.910074669647826462e-01, 9.466621965398157590e-01, 1.666565961815313079e-01, 1.087876853633262288e-02, 1.948424529412183526e-02, 5.368634092515260914e-01, 8.003553484292720288e-01, 6.926153115235509361e-01, 5.094490078753954876e-01, 6.037812530755900520e-01, 8.761725998719811503e-01, 2.618796200772202099e-01, 9.421337530052269482e-01, 7.895519686767216161e-01, 9.986354726765537260e-01, 9.882833180847990784e-01, 8.186068891890340149e-01, 9.367411493629659303e-01, 3.800153847560909792e-01, 1.743897484055804969e-01, 9.448330964370147411e-01, 6.448463139059454341e-02, 9.926659781627225065e-01, 3.232868711454195410e-01, 3.065462416489039832e-01, 6.293624155661667885e-01, 2.572115713863090125e-01, 6.186997607268688304e-01, 3.355790442925624673e-01, 3.162552273713529760e-01, 7.820227372471734162e-01, 8.477569826200994640e-01, 6.991924246930077969e-01, 2.094407392945652480e-01, 9.939895711592368066e-01, 9.196738952578579207e-01, 2.201386623990412295e-01, 1.086618380997520228e-01, 4.689132808574049682e-01, 8.629134481399103329e-02, 9.306787861130041417e-01, 2.708873696908384865e-01, 5.211923666968094615e-01, 4.359211355554274969e-01, 2.548312884531263589e-01, 1.427307787349405277e-01, 8.832388821130654488e-01, 5.184072588504359258e-01, 1.526016296454707488e-01, 6.841069548758285102e-01, 1.512599500249365014e-01, 7.899278323572559435e-01, 5.286331338990820639e-01, 6.251549146496204745e-01, 6.997349613401218082e-01, 8.658203639661002926e-01, 3.164080268142398233e-02, 8.938038653952912194e-01, 6.911566738739999272e-01, 6.030807977797889574e-01, 3.014235706716548724e-01, 8.845724710376956512e-01, 3.914656651729719883e-01, 1.884081925046737077e-02, 4.507824232141593446e-01, 5.566257349253598274e-01, 8.340827007393727399e-01, 1.770447282035599312e-01, 7.597977464584297902e-01, 5.073550191461383418e-01, 2.810159377075745479e-01, 1.083121260407013675e-01, 5.489463049862607358e-01, 9.604837505840504441e-01, 7.532826048619024606e-01, 6.636434157012902624e-01, 5.546663429437029835e-01, 7.290893112512807361e-01, 3.481464370296580846e-01, 7.103812466360296396e-01, 6.506086661311998309e-01, 9.184116636399339839e-01, 5.983817402305179334e-01, 7.176559991627481372e-01, 8.680210665823089311e-01, 7.906170443390504454e-01, 3.646942814151939438e-01, 7.958113265019765015e-01, 5.917152251920383410e-01, 4.492463398922242890e-01, 6.925528074629911934e-01, 6.090633262317578928e-02, 9.384493577623961857e-02, 3.902863445074183368e-01, 1.753284539859396307e-01, 9.523524877107159003e-01, 3.014052042615271709e-01, 9.187816688555088263e-01, 2.979473967881879903e-01, 7.740023970739157155e-01, 7.923841631558107279e-01, 7.686216285951850136e-01, 9.247564310376265029e-01, 1.255331157420831734e-01, 8.179518017219060688e-01, 9.938243473974957276e-02, 1.280215202477274772e-01, 3.125893037401962782e-01, 8.127536139269422311e-01, 4.740620390501573689e-01, 3.698958955591301057e-01, 9.346797603102513508e-01, 5.892660309883099995e-02, 5.893462923455405900e-02, 9.407089654854478011e-01, 6.253836820936582441e-01, 2.432828130656782550e-01, 1.123855115893005463e-01, 7.612476848881114533e-01, 5.252219589516068377e-01, 8.559049157862730350e-01, 1.810942190741695046e-01, 6.297465188563811100e-01, 7.160287604887330404e-02, 7.181810156537858647e-02, 4.767184298515806939e-01, 3.515524450992041361e-01, 2.671233110312760117e-01, 1.769132593039115520e-01, 1.344892111578985250e-01, 2.844880198941876492e-01, 9.324921604844372824e-01, 2.443371400460389309e-01, 8.717850418727137729e-01, 3.750806530446945120e-01, 5.873447026065811150e-01, 7.128508035195513237e-01, 2.445668203526146500e-01, 2.878790831286666685e-01, 2.572498587369974055e-01, 9.613287211325248841e-03, 2.476546800015415606e-01, 6.629816954986438304e-01, 5.048100235489628718e-01, 2.493036074281200776e-01, 6.170227645951846807e-01, 9.354313747758227215e-01, 8.989034445079234770e-01, 5.815922850833438185e-01, 9.281820251979480130e-01, 4.434106567305785562e-01, 2.774159066203874535e-01, 2.660450085133711506e-01, 9.444215777979385606e-01, 8.508538105177847477e-01, 1.821100851290467226e-01, 6.629631080929802023e-01, 5.596799772524910788e-01, 8.767497883432109340e-01, 8.571198563473971799e-01, 5.551315687388611586e-01, 6.036111306136560106e-02, 9.480572318405947607e-01, 3.923550193153739762e-01, 8.141891356410678737e-01, 8.619396323213186495e-01, 9.240333642822621263e-01, 8.921255510399123123e-01, 7.632275778372427100e-01, 3.505943296051278746e-01, 5.297718744191215468e-01, 1.383985502541521251e-01, 5.357852356374036562e-01, 5.788841631325430948e-01, 5.326187065549415900e-01, 5.053843462788459862e-01, 9.588382661911198923e-01, 5.348606396060378021e-01, 8.704269951771563540e-02, 5.518069965466401161e-01, 5.986221061149753497e-01, 6.858416818518572322e-01, 7.981871625748609977e-02, 8.121477846629374109e-02, 2.001376920579062135e-01, 1.041830847193305348e-01, 9.678614807656608088e-01, 8.833504421444818844e-01, 9.863193370684735228e-01, 9.716738281090321339e-01, 2.194838632093932262e-01, 5.125400039282753673e-01, 1.058332355510463729e-01, 5.981235238474165161e-01, 9.897399729759679410e-01, 1.156798953153021364e-01, 2.239235874066259069e-01, 5.599146027279402471e-01, 3.532162182343158152e-01, 4.012431034215847570e-01, 7.337215140539267155e-01, 2.411398419147777750e-01, 4.862512551250800508e-01, 7.201663299199428936e-01, 2.215150536858506714e-01, 7.327252774210264441e-01, 2.613849519583956171e-01, 9.254031836367283825e-02, 9.088242204373248034e-01, 3.588822816375342173e-01, 3.297697692559046212e-01, 6.702447338011895406e-01, 2.580185738626867287e-01, 9.910742730482943186e-01, 3.557916876213582658e-01, 7.968828166902911514e-01, 7.076236160861003599e-01, 2.530072362617531989e-01, 7.523989983932491965e-01, 8.483199405508058399e-01, 6.105624840367253059e-01, 5.452174865925111247e-01, 8.629197784131608095e-01, 2.771235090466027118e-01, 7.206130101148827682e-01, 8.271298880294969402e-01, 3.928374082208352935e-01, 5.139267697950359315e-01, 9.512740481650531210e-01, 6.800412687249994814e-01, 4.324610449640528542e-01, 3.670372164073059107e-01, 1.347892821076163983e-01, 4.911249532230962944e-01, 8.097762278594348162e-01, 2.038783942195947774e-01, 6.540947581619083184e-01, 8.266998932296241165e-01, 5.055306875040058712e-01, 4.735544078393049139e-01, 7.078130689839853829e-02, 8.517062451414528779e-01, 5.454411738677054089e-01, 5.810805823888722799e-01, 5.235693316619632887e-01, 2.925187619530886796e-01, 5.602589329463006917e-01, 5.267493905706278623e-01, 4.498910375711019927e-01, 9.914547936654506399e-01, 7.249659740870606495e-01, 4.263820457431551358e-01, 6.085181793323877208e-01, 1.892850993471209553e-01, 9.540281346467945067e-02, 7.153801323221454789e-01, 6.859795885079886801e-01, 1.009116328716286141e-02, 4.327208421636326019e-01, 3.003825259570441775e-01, 8.178906798662166633e-02, 4.738743933280591403e-01, 6.790569381146790429e-01, 4.715246407186522992e-01, 9.060525725484008808e-01, 7.811639222155186690e-01, 8.369202235586978844e-01, 2.428212733074829044e-01, 8.744349905512056598e-01, 3.172693205061953847e-01, 1.169538887256495741e-01, 5.286994759162152446e-01, 7.974495421553580154e-01, 3.535691080779050921e-01, 5.676499886967862896e-01, 2.984740898725430913e-01, 6.773763344714430756e-01, 5.846874894552148705e-01, 1.222410601144157533e-01, 9.616690427023649734e-01, 7.379998528944238245e-01, 5.330280020252025075e-01, 6.878012269273062751e-01, 1.800274630948567600e-01, 9.901137438793226053e-01, 6.011125689459259069e-01, 9.286835250391959340e-01, 9.182579361157221509e-01, 5.755953612375943607e-01, 9.642159728485030223e-01, 1.398286754886625127e-01, 6.855155262766085000e-01, 5.416901879028775957e-01, 8.044520532582357664e-01, 6.839106514758120925e-01, 2.273316478830269827e-01, 6.711186646334154071e-01, 1.707292961269715470e-01, 1.943346525345584774e-01, 7.500102912378460163e-01, 6.080760837225568372e-01, 1.375140876136422829e-01, 6.266978014382192930e-01, 5.706266646514356333e-01, 8.495960324577755962e-01, 7.663204443823408152e-01, 4.069529226596217408e-01, 4.200375571646818851e-01, 1.904335154366430527e-01, 3.475204639793679218e-01, 2.711952623611499358e-01, 4.881439866194371979e-01, 9.280011590250283326e-01, 6.647345286650373497e-01, 8.762013314352991022e-01, 3.938395819819017207e-01, 7.014085330213194469e-01, 7.637771092321715694e-01, 1.947703296839288778e-01, 6.171011686702527754e-01, 8.027106150880077839e-01, 8.395021663639925524e-01, 2.387761620993440054e-02, 8.531820230911613123e-02, 1.409364231933188105e-01, 7.845813274965142414e-02, 5.050750841186081308e-01, 6.696492569157561636e-01, 4.370999032270065365e-01, 1.943740220483459180e-01, 3.467792115279524912e-01, 9.922116534235752017e-01, 8.403727841948166466e-01, 4.893653870197071099e-01, 8.551638586628856897e-02, 9.121699616525127396e-01, 5.257902990530821663e-01, 8.241686343389260649e-01, 4.197069379910529086e-01, 8.150680725239937141e-01, 1.335065309490996444e-01, 8.032038196334735369e-01, 8.075325488825227938e-01, 7.937159427740080320e-01, 6.550368165430157097e-01, 1.630656475507324676e-01, 5.257545899590581051e-01, 3.964415810779627070e-02, 3.379685233121230703e-01, 7.616052710037924944e-01, 8.863129948382371393e-02, 1.345039845927027133e-01, 9.762917509105411007e-01, 4.442495347678988848e-02, 6.599397387601293463e-01, 8.296121266697731311e-01, 2.740871260926172615e-01, 6.416883527235585083e-01, 3.638831805312338630e-01, 3.523924326979364086e-01, 8.094820679171887967e-01, 4.782427083528333900e-01, 2.087870535029635044e-01, 3.235494539401122527e-01, 2.428142852386075135e-01, 8.975786994106417227e-01, 2.910105111658078947e-01, 2.156288731205075609e-02, 4.549747467429577363e-01, 1.772250619432704233e-01, 6.851656019686792609e-01, 9.847021942353938462e-01, 5.081010918229460493e-01, 3.452236505186246363e-01, 9.277648831523827022e-01, 8.552182855416681218e-01, 2.209393286682159729e-02, 2.457356160223270747e-01, 6.336880797507599139e-01, 5.731106670617971410e-01, 5.681777183641483209e-01, 3.171165116535608619e-01, 3.834123987346414048e-02, 8.490945230666937515e-01, 3.901355580933950074e-01, 1.448298165616144773e-01, 7.224218881450523710e-01, 3.603151752780314743e-01, 1.831105809924107319e-01, 5.722429135649452492e-02, 8.931661802737862477e-01, 4.341651672703082387e-01, 3.749347893025661849e-02, 2.369379745891512234e-01, 6.147400005733661965e-01, 7.675362066929782845e-01, 1.274767932678001481e-01, 7.915603990870743178e-01, 7.700125249245722836e-01, 7.082556424945178897e-01, 8.360730531854648762e-01, 8.821722823632051069e-01, 4.583789765970915364e-01, 4.169583515462118584e-01, 4.364247415407813691e-01, 9.585029312780196653e-01, 2.532131346667241822e-01, 3.720275970079591210e-01, 2.151604405609364168e-02, 5.261872580880367911e-01, 9.021730223733497311e-01, 1.636897553002936712e-01, 8.451482765188287338e-01, 8.265211618334922239e-02, 1.330988440125853434e-01, 3.179853188041777412e-01, 7.680336566289283073e-01, 5.359322692690577927e-01, 2.962273437407426102e-01, 2.626734670962789786e-01, 5.998553301579498953e-01, 5.906662566580349605e-01, 8.603248888614883905e-01, 9.727232896243083182e-01, 4.243792676389088192e-01, 1.105673637548642008e-01, 9.183143203328497650e-01, 5.669606178533197482e-01, 3.221091470104946453e-01, 5.539969780681335276e-01, 9.935246599447818128e-02, 1.872587509397362349e-01, 3.125536815287292547e-01, 4.114867051226935302e-01, 3.347790355492197834e-01, 4.308264334563357001e-01, 1.209914013554891782e-01, 8.304297434063907524e-01, 1.539678968684418392e-01, 9.961483905900714309e-01, 5.636953687293604354e-01, 7.968331430138479998e-01, 8.498650801555220902e-01, 9.431048028731665589e-01, 6.332543851705402238e-01, 2.240806760693764832e-01, 5.776231922759351711e-01, 1.416523364412959618e-01, 7.417887925118881176e-01, 6.470012720593386613e-01, 9.234810058099576224e-01, 7.301492506275378269e-02, 4.657059195917767624e-01, 6.081359036943140284e-02, 5.537270252695358774e-01, 4.773889413939236825e-01, 2.671058906556736390e-01, 2.024568538708741983e-01, 2.445615564609635584e-01, 7.756801450732873082e-01, 2.772009728975912898e-02, 6.923460962132119700e-01, 7.248635398376424011e-01, 7.133901256383102796e-01, 5.774424454717561744e-02, 1.116331548779385396e-01, 4.938911670721730096e-01, 6.952353085750417883e-01, 1.398392801250345624e-02, 9.864392503133623258e-02, 2.981917401396673717e-01, 4.171175269799393126e-01, 1.292449731506330191e-01, 1.761575768543804654e-01, 8.305623731477377314e-01, 7.728769115563346448e-01, 2.596730585827655702e-03, 2.746057529429041244e-01, 1.538333424306436159e-01, 3.091767179966697365e-01, 5.814407210305356788e-01, 7.370754207402894220e-01, 6.086808798787046726e-01, 8.030988996393644275e-01, 3.581081491242156245e-01, 3.305820069874131767e-02, 6.144953184268281410e-01, 2.303630907024620256e-01, 1.538431366025262148e-01, 7.436910544832673331e-01, 1.167233704951562839e-01, 4.777451000229248068e-01, 7.371601719319206270e-01, 2.504714343077704686e-01, 9.828252064275999622e-01, 1.999020421254887325e-01, 3.723462919964968254e-01, 4.118855547960238728e-02, 6.331222586425448995e-01, 4.435895015684118703e-01, 6.790679954379996719e-01, 4.011143897536755265e-01, 1.981312237928414821e-01, 4.036677144528119099e-01, 6.319141410357853594e-01, 5.401380290994174382e-01, 4.875879772091712416e-01, 7.490887819003074766e-01, 6.926875684474659289e-01, 9.968621982883050237e-01, 8.490300373102221965e-03, 1.601114346485616180e-01, 2.118322770202652194e-01, 6.389181303048141469e-01, 5.030887161771474547e-01, 2.843778232270794543e-03, 7.691578522836377274e-02, 9.723410247571981913e-01, 5.084031677947571382e-01, 2.283445502781494274e-01, 3.025724636337704387e-01, 4.875427679244803136e-01, 4.147932380927186746e-01, 9.577623431486236294e-01, 8.310349045527960499e-01, 6.875989319616734874e-02, 9.884210857570774333e-02, 7.413242227203317714e-02, 7.347559875855503853e-01, 7.832240988606971044e-01, 6.332504223220676298e-01, 9.248578694466454142e-02, 8.904619818967863809e-01, 4.825823879136656447e-01, 8.552680996512168621e-01, 5.813197984787863426e-01, 3.569537996733670310e-02, 5.690307518225743433e-01, 1.307499383254759340e-01, 9.254571125880793891e-01, 9.346006439788581144e-01, 8.932266699816416855e-01, 4.301500422970409576e-01, 5.609880309840733492e-01, 7.053243319882268603e-01, 6.023012620385139598e-02, 8.429892337563242855e-01, 1.182623227842034552e-01, 5.694647590335978338e-01, 6.908031302192827461e-01, 1.687263659682629036e-01, 8.866172455849924416e-01, 8.878921371650008720e-02, 6.201515095118422805e-01, 9.901183640469756186e-01, 2.863737379877870706e-02, 7.764143182916225516e-01, 6.967733267631255334e-01, 3.797322634033064581e-01, 3.998142217661027065e-01, 1.416724421946372048e-01, 2.634999035470994011e-01, 4.483414611206169575e-01, 2.194945593695592223e-01, 6.800373334627434208e-01, 2.518447017351397310e-01, 8.713388283952503421e-01, 8.898218245210305355e-01, 1.920314896938461746e-02, 4.588830258520654182e-01, 3.883072766722031610e-01, 4.671770578749782632e-01, 2.556895575110053054e-01, 9.000158334524375192e-01, 7.756056929785859477e-02, 9.984405546485051186e-01, 8.697338678757896568e-01, 9.982539960080581976e-01, 4.216069644283657047e-01, 4.004910798376852821e-01, 5.687649975266086955e-01, 3.382906359871478558e-02, 1.506919571411407255e-01, 1.489522237643396141e-01, 8.763234464784774858e-01, 9.060121363618608425e-01, 3.471129643705184731e-01, 1.315639493400080906e-01, 6.622240212640021495e-01, 2.567059595734830224e-01, 3.359776748697694826e-01, 2.771490267199069324e-01, 7.136220685729727231e-01, 4.100010452271173333e-01, 4.615945535575439740e-01, 9.243861107999509219e-01, 6.297275640616858405e-01, 4.212511015218267652e-02, 8.995435276783821932e-01, 4.264800970582928175e-01, 1.936560976480608820e-01, 4.329415803841574761e-01, 3.551974365808788781e-01, 9.702862231982728458e-01, 7.713779254734699498e-01, 3.506905552634529410e-01, 8.251170916410066614e-01, 2.127766339532535245e-01, 2.993553973819239600e-01, 4.483943968271511538e-01, 7.480572720160126865e-01, 1.600086206210510065e-01, 9.953974877566406088e-01, 4.772795790683427297e-01, 3.448500362851313894e-01, 5.634441375307385202e-01, 3.778444470278515266e-01, 5.551911163075022859e-01, 4.085384685730944487e-01, 7.027447009379842457e-01, 8.662084866983363884e-01, 9.578613437742613534e-01, 7.272489906239124613e-01, 5.619981566383149829e-01, 7.162258460223197565e-01, 4.373110072840386553e-01, 8.535894658834086712e-01, 8.857635160093758619e-01, 2.317858697161123138e-01, 7.540320114106789928e-01, 8.367771270157114971e-01, 4.692897224871905859e-01, 6.619076659186142741e-01, 9.689169874943156513e-01, 3.956449880135413100e-01, 6.697737532868264232e-01, 6.828347665661859134e-01, 8.002940698846526535e-02, 2.969187960837956775e-01, 1.923540599311618360e-01, 6.043409592862938329e-01, 8.991674262802602791e-02, 2.880355357832792285e-01, 5.405133071177891102e-01, 3.122251012288392857e-01, 8.230452953395676896e-02, 5.335947852964660620e-02, 8.031615876256263942e-01, 9.235456205068937052e-01, 6.625406927609269747e-01, 7.574568528916293397e-01, 6.355543129751834996e-01, 4.436105879572916910e-01, 3.623658546613670040e-01, 1.897224407471208019e-01, 2.497879276011918115e-01, 1.437308227449391740e-01, 4.037714031747854926e-01, 4.950535644471832919e-01, 4.949018474968555625e-01, 8.620781186955640552e-01, 4.570349986325747960e-01, 5.504282418087939055e-01, 3.479808198517407858e-01, 9.780354747582805652e-01, 8.867306221601009009e-01, 6.956175333120122317e-02, 4.257428393783985743e-01, 8.690294272221105176e-02, 7.373313008984935246e-01, 1.408004315033678511e-01, 5.024065671551385392e-01, 6.632724981322144497e-01, 6.197630604966730683e-01, 8.684086175139692498e-01, 3.349468735536964559e-01, 4.137899557259605565e-01, 3.179324447428987233e-01, 7.422831774691817097e-01, 6.234757012419002153e-01, 1.424146509850833242e-01, 3.159900247610917257e-01, 9.342532842740578491e-01, 8.058138420055079854e-01, 8.228749675010753606e-01, 4.274030714216448534e-01, 3.854147908907075148e-01, 7.965072250448558544e-02, 9.770271760747941681e-01, 4.083725663418628082e-01, 3.080415693175859726e-01, 4.003115615908543479e-01, 8.775185370220692782e-01, 8.293518545480265125e-01, 3.369057542134766270e-01, 7.958330699814886167e-01, 9.916352598153016507e-01, 4.540516382763088582e-02, 7.253598438051517272e-01, 5.891350063829017270e-01, 1.810474641319139710e-01, 3.330124450684407433e-01, 9.467500104741237710e-01, 9.275883160880405987e-01, 7.593361118874081273e-01, 3.453144658622489538e-01, 5.085837477569271625e-01, 9.048519156941246810e-02, 1.965783023558251574e-01, 1.188676411698508760e-02, 6.083594872024287170e-01, 3.202595560210991232e-01, 6.035193983745323898e-01, 5.269867071256779945e-02, 4.462020014287698122e-01, 7.949604710430465682e-01, 9.641527180859653656e-01, 7.750966763629451028e-01, 6.306343898056626651e-01, 1.288318722329390154e-01, 1.717159063286957665e-01, 7.133431459064762947e-01, 3.263112914690283750e-01, 8.667744693948499224e-01, 8.828936883419920001e-01, 3.771935405526227747e-03, 1.726632779102889870e-01, 2.099238475327988296e-01, 6.991458112601611763e-01, 3.860148909915819132e-02, 8.757406158851362976e-01, 7.433328393859475747e-02, 7.002122545645728113e-01, 6.904447488799049237e-01, 9.156925415060378493e-01, 5.803836356821492348e-01, 8.314350685753830739e-01, 9.358792347877111784e-01, 8.799999763902279781e-01, 1.855427328969580791e-01, 5.014446372153127385e-01, 6.168977097453588465e-01, 2.932210457354277877e-01, 5.868831730714356709e-01, 6.268119747135281195e-01, 8.252638957417509635e-01, 1.343173738482568158e-01, 8.225976310594507179e-01, 8.443760413278853516e-01, 5.112201940048232141e-01, 2.652719429838913401e-01, 3.723721793958410797e-02, 4.622496139903471968e-01, 6.649555106231775925e-01, 7.878411189661773673e-01, 9.959096929360958805e-01, 7.998731872233587614e-01, 8.061207232297441516e-01, 4.097823787552389851e-01, 8.162940735846451190e-01, 1.870111119676179101e-01, 1.377403065212612354e-01, 5.220118680599517003e-01, 7.525974163235963355e-01, 4.139114865649403119e-01, 9.789250235643341957e-01, 9.204682424885723968e-01, 3.064704369245849214e-01, 9.246654400599412238e-01, 7.966127231584598789e-01, 5.688979034652870137e-01, 9.777883660545884092e-01, 9.322561012107940526e-01, 2.961805172151207866e-01, 6.917947355279909782e-01, 5.630861969420895008e-01, 3.779016072972991025e-01, 4.999053293882097515e-01, 6.340954961912226295e-01, 8.492770065064714213e-01, 4.412623319346363204e-01, 2.650526219790816929e-01, 9.819760105920831705e-01, 4.787396042932206552e-01, 1.212224646922723525e-01, 3.331406471194854335e-01, 9.804590434671919263e-01, 2.494590033295729925e-01, 2.323648596805753253e-01, 7.796310046835298602e-01, 4.134960378175141504e-01, 4.815216022159035103e-01, 2.232926586363838672e-01, 4.352415044007648670e-01, 3.314409907040354736e-02, 7.696968586423873493e-01, 3.612883689385896213e-01, 6.114390745708331298e-01, 7.967446727072455825e-01, 2.219954723671327679e-01, 5.352694895233575112e-01, 7.132231235757391374e-01, 6.669573081601037901e-02, 1.645160879093576500e-01, 8.121638607136387744e-01, 5.155756972858541731e-01, 8.718118289993557202e-01, 9.938236997079031854e-01, 8.175878130037181890e-01, 2.738649766323488222e-01, 2.852997978351906605e-01, 7.212977269799869529e-02, 7.800143611489656070e-01, 8.246569179422534868e-01, 3.143449144101199688e-01, 6.362040018712507017e-01, 2.982444974586342390e-01, 3.984374683059765943e-01, 2.248125830916375412e-01, 5.623796684246299415e-01, 7.886978611839272624e-01, 6.918495415032045459e-01, 6.668160325716278036e-01, 6.592163670366445460e-01, 6.681734087406483447e-01, 8.177814334887956171e-01, 9.279755997081681196e-01, 4.891159645433869052e-01, 2.815683684034049339e-01, 4.950161808721806889e-01, 3.578800011781744783e-01, 9.449462390709119086e-01, 4.086273733299055078e-01, 5.915157796061762951e-01, 2.090677968210026549e-01, 6.114720217351929943e-01, 8.637689619277169051e-01, 6.367275732031043578e-01, 1.795127851561937604e-01, 3.907500027911002816e-01, 2.189015021619651613e-01, 3.269295493037881473e-01, 4.479347595115149017e-01, 6.110548409692009297e-01, 4.593090358508932769e-01, 7.144350980951761354e-01, 3.248257004936151437e-01, 5.430677492306222875e-01, 7.243728173040341056e-02, 7.141203775176371282e-01, 3.067848133419467938e-01, 7.479329454563816704e-01, 4.041250069805632505e-01, 2.681734686164310433e-01, 5.152364506642621578e-01, 6.944358969318473740e-01, 2.392737657291774678e-01, 5.281986050224006801e-01, 4.654256937804061023e-01, 9.420124671998933996e-01, 1.992618540374160863e-01, 7.675079107810947598e-02, 8.951818770211240617e-01, 9.576381167682894713e-01, 3.316551751278914995e-01, 8.876122739675795792e-01, 6.446016884656404766e-01, 9.285420392385034249e-01, 4.390869825812589444e-01, 1.789006905236284750e-01, 3.146160010718448974e-01, 8.146748159225337682e-01, 2.141317410871820814e-01, 8.444649241652455451e-01, 9.484698873554298082e-03, 1.911673105320195742e-01, 9.522771971936050406e-01, 7.547594602689656762e-01, 9.532701633048307199e-01, 2.253248503150420412e-01, 7.523134573703829098e-01, 1.411826856318883737e-02, 6.932739216524180792e-01, 6.219458006663139971e-01, 8.930608703202094212e-01, 6.595013531700539833e-01, 2.761373476123983317e-01, 7.929594642341981636e-01, 4.573733340799914782e-01, 2.617448900583127513e-01, 1.090901086571891138e-01, 7.208613817433006110e-01, 9.474068070892229798e-01, 4.185744733980926724e-01, 6.891460899535603035e-01, 1.354211493788692877e-01, 1.803562716368406760e-01, 1.467871491799645212e-01, 9.298369733112832325e-01, 5.512187620704407376e-01, 8.249131422596527319e-01, 6.199700038480460140e-01, 1.293768949767270804e-01, 2.075257224110699239e-01, 8.427762390066452503e-02, 4.090980928849882736e-01, 1.914217439120791397e-01, 4.506465788789364851e-02, 3.263597245931743052e-02, 9.832005974105246793e-01, 8.030414764538568173e-01, 8.394463418550820455e-01, 2.114841085104973151e-01, 2.200938320406647941e-01, 5.800129090292697187e-01, 9.063165903543992652e-01, 6.759960954135345312e-02, 5.684351190376157881e-01, 8.038625257698276405e-01, 1.529305276781460499e-01, 1.487779024280940221e-01, 1.698869900298450031e-01, 3.088504329852921268e-02, 3.352621125588483020e-01, 6.120985096620935595e-01, 4.223680724811238463e-01, 6.478006561451736811e-01, 8.669162021981067223e-01, 1.809558286802266103e-01, 8.059785850631475679e-01, 1.220036419389001203e-01, 9.605498222536550459e-03, 4.346700200658977775e-01, 4.325484736072661152e-01, 6.986897743323896570e-01, 2.211040076051818959e-01, 4.412378296574029912e-01, 2.101949835534731165e-02, 2.388838427229645900e-01, 2.615657220646583347e-01, 1.375649829119167944e-01, 8.395473713695124074e-01, 1.814913132059816081e-01, 4.988158624590068868e-01, 5.678145088909017923e-01, 1.408060465531108529e-01, 3.555724389632933247e-01, 2.522986366923100632e-01, 1.239384432964020094e-01, 4.286775062015396598e-01, 6.717556926071809320e-01, 8.820191951761736648e-01, 9.944600509786097331e-02, 1.523423750014236411e-01, 6.181677227332371682e-01, 9.685422476978335915e-01, 4.978566865641466666e-01, 6.231939647682205319e-01, 8.996480694257211752e-01, 7.727759874302365661e-01, 3.764756920417760000e-01, 4.941607863522547855e-02, 1.735836003640149894e-01, 9.427590046989402506e-01, 6.454719055276049444e-02, 7.688636540534891095e-01, 1.269593647159842631e-01, 8.278939320065558105e-01, 5.329031157521436218e-02, 7.018076651757654272e-01, 9.301992566541388285e-01, 5.852566307318262107e-01, 4.186826564599682166e-01, 6.890769892311446876e-01, 9.136179656735703147e-02, 4.029011900567479043e-01, 1.838597289812782531e-01, 4.334599147644566108e-02, 5.738272620435791449e-01, 9.703071923519784869e-01, 4.416508870355209670e-01, 3.966155784417980112e-01, 8.605439834838262136e-01, 4.319706366681337339e-01, 6.505154417148760748e-01, 8.219208790854247715e-01, 4.453238747911717615e-02, 4.616558296508032067e-01, 2.218513167073988823e-01, 8.311833188962137742e-01, 2.983542650124704765e-01, 2.421144387485126281e-01, 6.519892804319105117e-01, 1.236524509724872128e-01, 9.188527130328077996e-01, 1.692691774215980896e-02, 9.012569313077252176e-01, 2.117022693576785519e-01, 5.544835358732068675e-01, 4.210463992520940280e-01, 5.704927600388729481e-01, 9.373365504882035237e-01, 2.907383054155724400e-01, 4.612399563582348372e-01, 7.479294073891843420e-01, 4.706838971059650323e-01, 8.596452587458565109e-01, 4.510161515916565889e-01, 7.964190148001510927e-01, 8.189047091198703443e-01, 9.991026578570382233e-01, 1.676969188525297694e-01, 4.466609707230250192e-01, 7.797759713014676408e-02, 3.312737013662101493e-01, 4.260548575541603378e-01, 8.937921534707120585e-01, 2.127167669877683687e-01, 2.115630638390566531e-01, 1.632140425420342544e-01, 2.084589686932043773e-01, 9.599864697304955063e-01, 9.662196060183768642e-01, 5.308187280634126815e-01, 2.256495963387217946e-02, 2.604363111063184855e-01, 9.935889733693962222e-01, 8.695760809682379078e-02, 7.362843017609809193e-01, 1.526096219646256025e-01, 1.377849319202822109e-01, 1.321912331790778550e-01, 8.362396420664098828e-01, 5.631054351582455431e-02, 3.978124001076043803e-01, 1.059679535148223689e-01, 5.129240090976945332e-01, 3.024984078620284733e-01, 7.983265538128453409e-01, 2.378506034503463096e-01, 8.435528198649292486e-01, 3.514630956501142434e-01, 6.750045631946598457e-01, 4.289281586249836242e-01, 5.078631852898998766e-02, 9.963519663270224980e-01, 2.714780318108550583e-01, 1.629188322191706118e-02, 1.367057999517711508e-01, 9.041252706692384233e-01, 5.485163333634769378e-01, 1.936353678785346644e-01, 3.132534852302230610e-01, 5.190790425000954000e-01, 6.083820430029166504e-01, 4.198277181473252240e-01, 7.194398035798418301e-01, 3.015562504678369338e-02, 6.069812210922238549e-01, 8.322056060339881878e-01, 5.060286085313718818e-01, 4.880254417453317450e-01, 8.654273590298346142e-02, 5.500026118468420711e-01, 9.553592121211721411e-01, 7.521584636638605215e-01, 6.770502690510857846e-01, 7.556838528158205115e-01, 1.161603085210632935e-01, 6.666065811182315670e-01, 3.646212898860942686e-01, 4.418813424683099567e-01, 4.388390956031614221e-01, 1.318754409410436146e-01, 2.054247188086500697e-01, 8.821946234046984525e-01, 3.013824050479247951e-01, 5.326682315851684058e-01, 6.682210751728873133e-01, 4.243702951600852868e-01, 1.767163049564331179e-01, 7.425335462145846721e-01, 9.918971654729289433e-01, 4.690083479564993163e-01, 6.926817405160659025e-01, 9.613599037179550999e-01, 3.507675852463080779e-01, 7.228198434864000488e-01, 7.593549634793830272e-01, 8.637537893249156440e-01, 3.874375360402120688e-02, 2.108245040776583201e-01, 4.740087867838289060e-01, 7.158993337438617210e-01, 6.283731252572137826e-01, 8.833205932931196269e-01, 1.458841430723158417e-01, 1.723749865348541965e-01, 1.221074051597516030e-01, 2.006373122531852349e-01, 2.308695595604091932e-02, 6.225292804450406337e-01, 5.341473672630445702e-01, 1.823994837956131321e-01, 8.549242712177697046e-01, 5.741782383221858410e-01, 9.044426457707757105e-01, 9.789664771484636596e-02, 3.612675390870525582e-01, 8.538064520592278939e-01, 9.435203187911321843e-01, 2.923167011346346125e-03, 9.216219610759706082e-01, 7.732768598785700886e-01, 6.181943576702869647e-01, 5.639760866830153541e-01, 7.956028150016822842e-01, 4.792581394872677536e-01, 7.932194625480949446e-01, 8.081137593152696308e-01, 2.869745344786677199e-01, 9.504495589256570787e-01, 7.393888968538820938e-01, 1.475003719256803014e-01, 5.516363313289964765e-01, 2.708208203410265025e-01, 9.525936665102812118e-01, 7.060535821182123417e-01, 5.187666146331033623e-01, 1.804525684227815119e-01, 8.800450061547575309e-02, 8.286508460392865150e-01, 3.371967948898269563e-01, 8.450327886919156706e-01, 4.643114799456095620e-01, 2.258044988606837944e-01, 4.471598205682586480e-01, 7.927080571970139822e-01, 9.387660813373266411e-01, 2.441800436468906654e-01, 9.563509231798494881e-01, 6.107211813064453709e-01, 4.819042606422713204e-01, 7.821430395480142295e-01, 7.525408122272925215e-01, 7.776740781876136932e-01, 1.564099733549707549e-01, 9.619503497903013622e-01, 6.544668828951520911e-01, 9.795326304207088164e-01, 3.664366395183245584e-01, 1.455075945115721081e-01, 6.306492514642145775e-01, 4.420004957160201808e-01, 4.897024808485239133e-01, 1.598653847662855898e-01, 3.248353907940232932e-01, 7.891748085970140547e-01, 9.536062306355994611e-01, 6.427769981023969681e-01, 9.242473990384136862e-01, 7.281476254272030157e-01, 1.298134000959445811e-01, 2.065710824444164373e-01, 9.805698554414898904e-01, 9.098889492445539906e-01, 8.933104264652865778e-01, 2.678721838860842475e-02, 3.231994741439777469e-02, 5.057094640772556715e-02, 3.869642502494182179e-01, 9.894877090666620578e-01, 3.464986992150719813e-01, 3.356106758695880932e-01, 6.348135964681957955e-01, 8.088108001345363229e-01, 4.919474762835584492e-01, 5.363836112161438421e-03, 1.910358202930661220e-01, 9.498629469736840081e-01, 7.425539268324734543e-01, 3.084711375342489847e-01, 6.957400916050356932e-01, 3.216283879126819456e-01, 9.514181265455982084e-01, 4.780214609004764248e-01, 8.569872858245927150e-01, 6.337203346937763104e-01, 4.487289484246866356e-01, 8.063557652703124967e-01, 4.663216891298467837e-01, 4.828698185736592374e-01, 6.341760522886019658e-01, 9.578989083961796380e-01, 9.505907030698580451e-01, 2.427361567033998746e-01, 8.427726127285193325e-01, 4.304259055834614572e-02, 2.951874719032459016e-01, 1.383690412663391399e-02, 1.799520804628204629e-01, 1.556301476688925212e-01, 7.258848011558340085e-02, 5.159068195238870613e-01, 6.552610431359415788e-01, 7.446702652418475399e-01, 5.954003287983221648e-01, 4.841352392798474735e-01, 1.255232140325203694e-01, 7.454924968082218273e-01, 6.403925683440385430e-02, 1.249004813804971969e-01, 1.223032596155052276e-01, 9.173817440636482523e-01, 7.936465438990293331e-01, 7.466511559349748861e-01, 4.939498451125533540e-01, 1.843240808722013402e-01, 7.302766468742268868e-01, 9.423100064147869048e-01, 2.000880371182952311e-01, 5.520420115648135839e-01, 9.598260330505687943e-01, 3.979321577265171883e-01, 5.080528769239547326e-01, 8.911897669305550718e-01, 7.175681591486761102e-01, 6.079120779923780082e-01, 1.220547974892028514e-01, 6.397475549578461873e-01, 9.012242004482541313e-01, 3.310109821391493679e-01, 6.601968569505497486e-01, 3.630688518240974827e-01, 7.351812056400948148e-01, 9.528635050168080545e-01, 2.976102934250094978e-01, 9.679537480124428273e-01, 2.923075060377501311e-01, 8.432933394919566172e-01, 5.143352249404412602e-01, 6.731247984412118690e-01, 9.891148033687728602e-02, 9.860247636228650636e-01, 2.167824229259290858e-02, 6.759083058440928937e-01, 4.432444919358476815e-02, 4.616390426427306459e-01, 2.745178358042237310e-01, 7.959538312107616864e-01, 6.714533251902927991e-02, 7.495010796282254306e-01, 2.214212657599742007e-01, 5.450853641611210776e-01, 7.221119118639953705e-01, 8.745568840071243910e-01, 6.000819282705878166e-01, 6.814456293586165225e-01, 2.500870663047664033e-01, 1.538296835372966187e-01, 2.443795403413210610e-01, 7.915257836249968149e-01, 4.890129749590297892e-01, 1.917590278379425750e-01, 1.968806968819328818e-01, 7.352402628412156860e-01, 9.186717916033282361e-01, 6.073867176011720215e-01, 3.338972383682394240e-01, 8.189333787786613472e-01, 4.237410564636310828e-01, 5.638997370740772563e-01, 8.675550215013418942e-01, 3.560616953069482560e-01, 2.995672312176353991e-01, 5.323942513836722040e-02, 2.669059863682433087e-01, 4.001220277545694537e-01, 3.139100896865528595e-02, 7.374154826644091498e-01, 6.977716944179020997e-01, 7.712007169362964376e-01, 1.505089715606412748e-01, 7.314678953173197051e-01, 6.903132608813000726e-02, 8.128316440961464995e-01, 3.634863748315746435e-01, 8.167546191477345063e-01, 5.730325086888443664e-01, 2.248885638399812092e-01, 3.783559109548358945e-01, 1.502906921592315481e-01, 3.001050568756696291e-01, 7.706705297764167295e-02, 7.224145166282727182e-01, 4.981961642128923673e-01, 9.204735849346172838e-01, 5.375259020253054798e-01, 4.953419816402336862e-01, 9.114778765536643013e-01, 4.454746707628793878e-01, 6.012257726005039160e-01, 2.482312679525206511e-01, 9.567781114691302768e-01, 7.672573555451583927e-01, 8.552409974761371325e-01, 4.377707187737759909e-01, 3.976444456143969908e-01, 6.365931384995903164e-01, 8.207390691362251856e-01, 1.051977751344945339e-01, 8.188457472306723828e-01, 1.364055735440140305e-01, 2.507669627927466838e-01, 2.072378105144924085e-02, 7.655523007900298937e-01, 7.119768512204718292e-01, 6.505418921181566061e-01, 6.838709311843490513e-01, 4.395509866280672417e-01, 9.197581633132285717e-01, 5.733899161028123137e-01, 9.032391340674706948e-01, 3.569891307944653702e-01, 9.732878217599243431e-01, 6.176389582837995551e-01, 2.349254263332429746e-02, 7.160482087876337554e-01, 8.272738908909617050e-01, 5.474108704228165534e-01, 4.530151618502940569e-01, 9.521035693506723074e-01, 6.478446744616948028e-01, 6.226189336114418271e-01, 6.711010536463560827e-01, 7.799437312282967438e-01, 8.668679584753240519e-01, 8.638352235397336321e-01, 2.147794231683517463e-01, 6.296413888044872786e-01, 6.972441414539022331e-01, 9.440242481670634012e-02, 3.122344355094648985e-02, 3.352591949479801214e-01, 9.879101884194653183e-01, 3.235778414621537369e-01, 4.682068064046658873e-01, 5.144370333919382476e-01, 5.510205084691883748e-01, 9.912234502614558629e-01, 9.734480341791290625e-01, 4.565156831226526157e-01, 4.020345862853792474e-01, 7.112057945768852640e-01, 9.502282231560895687e-01, 9.261764211812508751e-01, 4.012901772462026395e-01, 1.502566936156579935e-01, 8.436783922234579736e-01, 6.629924993168441194e-01, 3.915335827793522960e-02, 2.115728114828789863e-01, 4.055879997079238630e-01, 8.367825995683858542e-01, 1.384075762048868896e-01, 4.503568052311657244e-01, 3.509524422509381902e-01, 5.863491011845495260e-01, 7.274998944016350944e-01, 5.323524452689636366e-01, 6.487216586652295724e-01, 4.847077983531682954e-01, 7.942414010347131903e-01, 2.644122119301774987e-01, 1.169795068034285845e-01, 5.235956326708163244e-01, 9.334833531451974808e-01, 8.023244432850542562e-01, 7.533479499576771765e-01, 7.808937398200884727e-01, 8.239361121749040340e-01, 8.870008900579269273e-01, 5.781533559590442684e-01, 1.059625757643143096e-01, 8.883260494395325280e-01, 3.709352948008071832e-02, 5.707576315905962816e-02, 3.303033562932039535e-01, 7.748859994028044484e-01, 4.258390915659027720e-01, 7.520256010357265763e-01, 7.432604503358927195e-01, 5.427956496768885364e-01, 6.544716102777300426e-01, 3.504382646189431738e-01, 6.642553181693354736e-01, 1.943022177228559133e-01, 5.091262641144347345e-01, 6.724391999633461126e-01, 4.455145317191867016e-01, 5.776731398166362608e-01, 1.123118992907861241e-01, 3.196743345711660078e-01, 2.526905548658787692e-01, 4.116541746478548092e-01, 6.015010661189835739e-01, 5.787171772757779831e-01, 2.014946474483805261e-01, 3.828075207626017717e-01, 8.806522200345106022e-01, 2.948864067737366756e-02, 9.114460009310810795e-01, 7.460442110814936578e-01, 4.060937069565825341e-01, 1.911754124127025278e-01, 7.672587542094648771e-01, 2.863544003286235817e-01, 6.706864831595131804e-01, 9.897571761733157114e-01, 2.139309011139221284e-01, 2.713047156681933081e-01, 6.507537411464493493e-01, 4.925178536050477118e-02, 5.339681834944823846e-01, 2.628154263479457464e-01, 8.086008599770913019e-01, 6.884228526597437892e-01, 9.608040253261164176e-01, 9.163378306483056512e-01, 8.777711267540765361e-01, 6.075055459528667656e-01, 1.820513116193447634e-01, 7.433280974686344855e-01, 3.472924277796008430e-01, 4.149012950015741330e-01, 5.763750686933569733e-01, 1.150791279258446820e-01, 2.155542139131802204e-01, 1.612350039350807784e-01, 3.956681159175331475e-01, 2.508379814340621627e-01, 1.358522495348839232e-01, 2.897769502273813691e-01, 8.422957375555764070e-01, 6.885286114527406909e-01, 2.268130594910107434e-01, 1.474651789757650266e-01, 4.485278857573725686e-01, 2.926831296802283600e-01, 8.272286754414963639e-01, 3.964757022744722637e-01, 3.063115226636908273e-01, 6.266601554360435866e-01, 4.405765042158293898e-01, 2.317971165808601630e-01, 3.146662281361480296e-01, 1.114009627233918942e-01, 7.929444549341887472e-01, 5.536726431211944632e-01, 8.008809152623070915e-01, 4.148292049165802076e-01, 3.945789967549177546e-01, 8.899825460707977420e-01, 4.863730404349205227e-01, 5.675304497413994342e-01, 4.878052543261440221e-01, 4.912017794297183770e-01, 5.925022856848779496e-01, 1.022847658719632929e-01, 5.872302098355608457e-01, 7.146804149913362769e-01, 9.890947627552201249e-01, 7.860205869224083930e-01, 4.986459206929712562e-01, 2.812209458603844303e-01, 4.273407724898570792e-01, 3.095589842295525251e-01, 9.987444817515741535e-01, 7.413313384931732308e-01, 1.970975760678825295e-01, 8.511872946914266214e-01, 5.677474962657642621e-01, 2.691143366224690858e-02, 2.158491821250830833e-01, 8.152065464035844755e-01, 5.941999519530251073e-01, 3.285321746125735576e-01, 3.421005043491517350e-01, 8.848812729410029387e-01, 6.679651837390340186e-01, 4.823096210408864271e-01, 4.859676012817081836e-01, 4.138071512392024753e-01, 8.557052509503013660e-01, 2.173723455612422140e-01, 2.366296287630156592e-01, 3.608192317424271378e-01, 1.936632380072406123e-01, 4.371474218476822243e-02, 8.517583741218144322e-01, 1.844804040735752160e-01, 3.015372026691750529e-01, 1.814228673106274906e-02, 2.901735039046246523e-01, 1.942434264610011507e-01, 3.529080626492628880e-01, 6.848658605363794338e-01, 6.944996417515345577e-01, 5.658370142833569760e-01, 1.225846823737694047e-01, 7.862977274939533107e-03, 2.019687819741377566e-01, 6.244508974557281267e-01, 7.619230617119123750e-01, 9.408238683666371172e-01, 7.131197389797507835e-01, 5.784313639013549668e-01, 6.763377490421421667e-01, 2.700707853564154881e-01, 3.340821820737995829e-01, 4.142993847652475803e-01, 6.197113803809382038e-01, 3.629107729323495790e-01, 5.641067656217830795e-01, 3.396250033047908956e-01, 5.621419161554337407e-01, 9.843108176563846179e-01, 3.810500198881662803e-01, 2.800263335709978763e-01, 4.195524505539682258e-01, 2.647561699777728483e-01, 3.584227011111152383e-01, 5.924402709415945711e-01, 8.986795267289359179e-01, 6.279073973814193188e-01, 4.263530492705011610e-01, 7.426140347594445412e-01, 9.662028557820928620e-01, 4.156682371211571358e-01, 2.328556155067863787e-02, 4.417123731353516658e-01, 1.129467292805938911e-01, 3.399121443132676057e-01, 7.267425698096802167e-01, 5.561458155045664320e-01, 9.869476176963843939e-01, 9.047996265338442701e-01, 8.404694697755342725e-01, 2.889937025863817399e-01, 6.877671750927744077e-01, 7.209266140159811265e-01, 1.560768607723735102e-01, 7.613714307021128558e-02, 7.244646280939205374e-01, 9.551094810473398367e-01, 9.533252231225202156e-01, 8.596200472947457261e-02, 2.986944366975096687e-01, 8.010253622561771536e-01, 7.800556923761013950e-01, 1.718023959105311471e-01, 6.358179774957734010e-01, 4.335508304290773829e-01, 9.055446617339808490e-01, 9.858776311830953487e-01, 3.221291699375908868e-01, 9.580872535412314761e-01, 1.799957270332722126e-01, 9.588975964803290175e-01, 4.004216224071369123e-02, 2.608381546051433131e-01, 2.208759505066832940e-01, 4.485152857048280706e-01, 2.640485540238257101e-01, 4.448277620551231437e-01, 8.871175228079634101e-01, 8.860040379353242290e-01, 4.612781832327156883e-01, 4.050796266581097038e-01, 7.720266185800701564e-01, 8.951297972943601522e-01, 8.189863687649255874e-01, 8.329846249436307914e-01, 9.059326022652433238e-03, 5.703808689305583934e-01, 6.017338581888033167e-01, 6.519943706672991501e-01, 8.337756301068416365e-01, 4.934038021422242903e-01, 7.719751427381447983e-02, 4.978212367078941325e-01, 6.961587174866143424e-02, 3.579907386679953007e-01, 8.086897617805658411e-01, 6.011337794389039202e-02, 8.328222513409627714e-01, 3.585525081501197420e-01, 4.354436923625978895e-02, 2.944526223719137192e-01, 1.792267930323106218e-01, 7.538001313952678029e-01, 3.241641898867641536e-01, 1.904481385873521282e-01, 8.236482265111948475e-01, 5.010829944303384353e-01, 1.375662101003364002e-01, 8.636966150652979346e-01, 3.938513880025050207e-01, 7.483450273281412324e-01, 4.781668765922519326e-01, 2.504361199383459691e-01, 2.946054137488437474e-01, 9.757240248167363683e-01, 3.722444625264510476e-01, 1.562978456519562576e-01, 2.757143171388942715e-01, 9.503394058240650644e-01, 2.358296731446868633e-01, 4.181143395030543358e-02, 7.488091580817107795e-01, 2.123826651472299210e-01, 8.588118320373733239e-01, 6.650362883277958215e-01, 9.205872733140398889e-01, 5.490767911330202145e-01, 8.337280483276695575e-01, 2.786231235280963170e-01, 5.040452402153761113e-02, 8.435541061992404832e-02, 2.873597634014947166e-01, 6.965030674526270227e-01, 5.403172956106137154e-02, 1.405033391356935168e-01, 1.314645081589272957e-01, 6.528979963933181363e-01, 7.878629281872558954e-01, 6.280698614988353690e-01, 2.851885570467204700e-01, 8.120874478350029735e-01, 7.869921573446869711e-01, 3.706938857146783173e-01, 8.373158879865869597e-01, 4.005257028296657085e-01, 2.111529724369577143e-01, 4.709593573324498683e-01, 7.542236401045970817e-01, 3.210066515177923963e-01, 1.784492887409996620e-01, 9.465692749705133524e-01, 4.065413107795823322e-01, 8.891365864843451261e-01, 5.878507020721313037e-01, 2.655950405083534749e-01, 2.661954575970063019e-01, 8.582148196122299511e-02, 2.064110084356065300e-01, 9.270082031507210774e-01, 7.330647598271700094e-02, 8.618259571832291854e-01, 1.680969617140758154e-02, 8.347990496912487401e-01, 3.459444058716620307e-01, 6.432915198866783202e-01, 4.354074629639512750e-01, 4.495492157079696294e-01, 2.611784609345146890e-01, 4.641051986792169570e-01, 7.545675030342429146e-01, 8.364965083357731035e-02, 1.837154632220024952e-01, 4.657784997226041002e-01, 1.159415178250637057e-01, 5.732266198531078549e-01, 3.453533528813449438e-01, 4.330677792387016556e-01, 8.573131743261874771e-02, 3.842495296060264853e-01, 6.034000528373012484e-01, 3.208433554490009443e-01, 6.869571211276439548e-01, 1.407258201131556252e-01, 6.461221226565501408e-02, 1.283216959834755123e-02, 7.287416712719609890e-01, 7.741620082040080453e-01, 9.624247769723399681e-01, 2.383685618680578266e-01, 1.724062072813068447e-01, 7.653797726062577800e-01, 2.229496757141297136e-01, 5.275161675453745591e-01, 5.900682689894817257e-01, 4.046616708863312040e-01, 9.257262724040250523e-01, 9.688010782724227887e-01, 9.192680994691353469e-01, 9.240215244695282326e-01, 2.563500381028149255e-01, 2.297252769680790396e-01, 4.062282356125650473e-01, 7.401701491006993372e-01, 1.514590005829751229e-01, 8.051094913765771688e-01, 9.337455167952514457e-02, 8.416545407310974669e-01, 9.473053655178189647e-01, 4.393213003719907972e-01, 2.741781301471746257e-01, 3.213660766228119692e-01, 2.465694414528935008e-02, 8.203604422084073144e-01, 7.018575561824695885e-01, 4.191995147636022878e-01, 3.652910831081942478e-01, 6.797503929207726614e-01, 6.434879387946520479e-01, 4.083011197500754363e-01, 7.506018481810988741e-01, 1.582467979411267822e-01, 4.777692714457751899e-01, 3.622439225372725002e-01, 1.264946822185920991e-03, 5.392054902427605434e-01, 8.271169747685211959e-01, 7.498111115065195786e-01, 8.910364744783232371e-01, 4.243258013320770350e-01, 8.126672827669307875e-01, 6.857710345996512746e-01, 5.782497562397524993e-01, 6.770632429416956199e-01, 4.354351859667031643e-01, 4.627170070091860543e-01, 8.324326959271914905e-01, 9.288730423159542449e-01, 1.961013386211606646e-01, 3.608780536590112109e-01, 5.174362585484058030e-01, 6.877163144779294690e-01, 4.559503532479884935e-01, 2.183148856882960454e-01, 1.188463297043915456e-01, 1.605986400029037475e-01, 7.348378507576431851e-01, 8.996927572883666180e-01, 3.162333134339354590e-01, 7.795570364513608741e-01, 6.194019921713092014e-01, 5.985416887637798888e-01, 9.921554025488367179e-01, 5.190474406676811592e-01, 4.520226868027406308e-02, 7.266723186408424739e-01, 3.398415259679107292e-01, 2.134497922758469279e-01, 5.053107866973859386e-01, 1.690764565726476376e-01, 3.576439589074605907e-01, 7.732159102295028674e-01, 9.346401646786106632e-01, 7.068362737156212994e-01, 7.617821764196233136e-01, 4.215982805110715104e-01, 7.568949661432240461e-01, 1.910525132113677915e-01, 7.770937346595984119e-01, 4.537131459006952250e-01, 2.651246759860141911e-01, 2.739111226185841907e-01, 4.160803160905766629e-01, 5.765901934781525462e-01, 5.524936512840272762e-01, 1.422856735453302025e-02, 7.753265001536145951e-01, 3.792929723707775258e-01, 9.046039006347313949e-01, 4.935007500739991837e-01, 2.996162989575549829e-01, 9.488913590777662277e-01, 5.421631829371791333e-01, 8.383830621709857933e-01, 6.942069030837740851e-01, 5.002397479487216136e-01, 7.773625275610535068e-01, 8.652269994028736200e-01, 5.951741588362050583e-01, 4.605630134797596420e-01, 2.030273178871471462e-01, 2.447433378673300186e-01, 9.965643986253009956e-01, 8.067145642574837794e-01, 6.698204152489085628e-01, 4.829985415447347608e-01, 8.973690245066068272e-01, 7.046442320931795011e-01, 3.931343043291901651e-01, 1.588404424085078925e-01, 7.247570837791621479e-01, 8.141768626129165520e-01, 9.581038665631038675e-01, 3.677459838525996560e-01, 4.101310345774247246e-01, 2.568380293085080757e-01, 4.533637812483474749e-01, 3.690112309656631839e-01, 4.663458380515501100e-01, 4.030682560644856527e-01, 6.214382751732669963e-01, 3.615033434252790112e-01, 2.705930861180127489e-01, 4.455126297300670002e-01, 4.017289967518297700e-01, 9.254725393230190944e-01, 7.550972689445825115e-01, 6.979038806379314064e-01, 2.804731654317173528e-01, 9.714042265892544603e-02, 6.288036459369776843e-01, 9.251757466918504313e-01, 8.985482135298284989e-01, 1.767710150773851852e-01, 9.118778848147340854e-01, 6.137235911210145445e-02, 3.488382312596525758e-01, 5.984961145792216941e-01, 7.637860738682533679e-01, 3.501273625833528080e-01, 6.232096791073005182e-01, 7.724406822727626354e-01, 5.847800435575697398e-01, 3.052897127459579252e-02, 1.114673125492218059e-01, 8.748042884881618297e-01, 9.009564740346344136e-01, 2.105254858004553808e-01, 8.194648159048342206e-01, 4.717610148055828012e-01, 5.319951999448807589e-01, 3.977936193117789232e-01, 1.106751352152641754e-01, 3.927440695142184190e-01, 9.100610763731137309e-01, 7.205529014251508269e-01, 5.861163062429743942e-01, 6.965982353447576214e-01, 3.203852625276118471e-01, 4.570735795786264044e-02, 3.705776627590051109e-01, 3.378531365666765512e-02, 3.316528858224128129e-01, 1.639901627554055455e-02, 5.199894291435435134e-01, 7.869210054857387338e-01, 2.770998606260806074e-01, 5.850918147151679127e-01, 2.653843784925146720e-01, 5.934364140411959587e-01, 8.397223474149749789e-01, 2.065191217697921744e-01, 4.253173089641778537e-01, 4.307174870540325662e-02, 9.036335622154146874e-01, 7.256918610560563199e-01, 5.583457270892179247e-01, 3.670426680801171515e-01, 7.474750900790629038e-02, 7.615008364075102065e-01, 5.960288380619388482e-01, 6.789390335613698646e-01, 3.808031871564978021e-01, 6.352404970096782177e-01, 8.826078112980519086e-02, 2.986367911568325595e-01, 6.533347969891534213e-02, 7.724453849247743253e-01, 3.022318249858346739e-01, 6.908131201971119406e-01, 2.866524738879758227e-01, 6.607808656881202225e-01, 5.041590445279657828e-01, 9.104455760300059763e-01, 2.926169432899572986e-01, 9.694383144676952391e-01, 6.217453441786419122e-02, 4.566008718862057947e-01, 8.422285606078830922e-01, 3.871586652559462771e-01, 2.231063166274193654e-01, 5.599861572263629128e-01, 5.690622898203018254e-01, 1.997008154339407204e-01, 8.692872092725857369e-01, 4.637344723800416735e-01, 7.586745208911095384e-01, 8.292414205457158127e-01, 9.292073167693683244e-02, 5.627031969648450538e-01, 6.125085285506575161e-01, 5.893495966430042365e-01, 7.287589895712402732e-02, 6.146122662672159898e-01, 1.947465685072431079e-03, 8.823388967218119827e-01, 9.141975461554772142e-01, 9.426610502705087269e-01, 6.474147746807437098e-01, 5.102269079681055752e-02, 4.531186098233895843e-01, 4.707538687826803847e-01, 5.406865699595151398e-01, 2.640052930677623810e-01, 7.984282632324318785e-01, 8.340337400713836447e-01, 9.453097694045816679e-01, 1.982195564113439779e-01, 6.809575094416944196e-01, 3.170586078432315880e-01, 4.608125701860990575e-01, 4.111098599939989606e-01, 4.422009734916186319e-01, 8.211985295286687858e-01, 5.994476700218830389e-01, 1.689575344431147041e-01, 9.037160015665662849e-01, 5.465121556722319918e-01, 1.207339134793569968e-01, 6.267834068567983419e-01, 6.941670542433845403e-01, 8.395693938859603023e-01, 4.954663345623431248e-01, 3.943838483177183329e-01, 7.628182687044681165e-01, 6.519420136685449840e-01, 9.386035022335594835e-01, 6.884746945871592083e-02, 9.774795371464262139e-02, 8.590439866554968606e-01, 7.349871727413055389e-01, 2.303795634177700502e-01, 8.611045060389369565e-01, 9.280793048374975651e-01, 8.841018902777023625e-01, 8.378225450741610958e-01, 3.243458010369039690e-01, 2.127377600444358974e-01, 5.207707795219009839e-01, 6.695027880749833404e-02, 6.239682321264315989e-01, 6.570313669075699137e-01, 5.052920616249196861e-01, 3.002812986088023717e-01, 4.929314243767449755e-01, 1.208968466511645690e-01, 6.064839748188103341e-01, 4.142576491336104061e-01, 4.193501661516623180e-01, 5.173041733237614404e-01, 4.471789147981664048e-01, 5.889993156505381189e-02, 6.524194593954409926e-01, 1.928390482622382163e-01, 2.532745977853610997e-01, 5.890985768565599745e-01, 4.799866453356002594e-01, 3.036771151311905004e-01, 8.032232819475093599e-01, 7.173660921149674907e-01, 2.588937842071452611e-01, 2.550043093531677019e-01, 7.541313088080698890e-01, 2.293058101479469035e-01, 5.887304220246179082e-02, 2.496365116781551208e-01, 7.764029999281704120e-01, 3.167573482795185136e-01, 9.078044462528218617e-01, 7.693621111500447141e-01, 4.682805269538334314e-01, 8.990540433795543018e-01, 3.419659230634256586e-01, 6.986382144078386869e-01, 6.349145330923764430e-01, 6.593176933047680821e-01, 6.682161653958865744e-01, 2.048930106383095584e-01, 6.385312803702479778e-01, 8.957620172875826459e-01, 2.334839053875749915e-01, 4.068565063870280274e-01, 7.726270623773150437e-01, 1.352808858962160632e-01, 4.815657340291218946e-01, 7.772366002321579037e-01, 1.429917855560725037e-01, 8.058139447925315446e-01, 6.646084425671099360e-01, 6.299239193747823151e-01, 9.181873564455532710e-01, 5.340225471633575083e-01, 6.039372614048541532e-01, 5.699978585171483481e-01, 9.663246504152084304e-01, 8.422070786986215474e-01, 8.612290266612038225e-01, 1.026836955758917008e-01, 4.851694867913607101e-02, 9.286377776174077336e-01, 2.623894409102248138e-01, 2.927048006110699041e-01, 1.798633666582227231e-01, 6.752744825290930564e-01, 6.305208864272817681e-01, 7.143043298237019556e-01, 6.607786455121490432e-01, 4.226634489414268225e-01, 3.834696729305336893e-01, 6.521119466690215027e-01, 5.031293393593617713e-01, 6.691144573220478842e-01, 3.334162196696680014e-01, 5.421332329933962191e-01, 5.600930946726625503e-01, 8.669226208688559643e-01, 1.431900077908724866e-01, 9.628247546579538074e-02, 3.192631374622030282e-01, 8.899918149948794488e-01, 4.647824575794072821e-01, 1.571737737457294670e-02, 8.984121158461378931e-01, 7.540551717917183261e-01, 4.920034568733827052e-01, 6.180273902550182941e-01, 9.288742652084728268e-01, 5.744679593970180020e-01, 1.233073444762849136e-01, 4.191781304578061085e-01, 7.869752514813560529e-01, 8.195204118045915642e-01, 3.607808107138719134e-01, 9.162900012911534553e-01, 2.811934591970582931e-01, 3.511729146182304140e-01, 9.418184022550239731e-02, 1.291373756726579003e-01, 3.870168848143696466e-02, 3.850814022143068116e-01, 5.997932693473561061e-01, 3.509199326878952863e-01, 9.110782849445239195e-01, 3.453130783107018487e-01, 5.708470110836324496e-01, 4.450333745087660109e-01, 4.008830918737838617e-02, 1.891223256828722943e-01, 2.390546922315240630e-01, 8.203407955835584353e-01, 1.491589381577708151e-01, 7.362350415957267247e-01, 5.656368097318836830e-01, 1.616099172741782553e-01, 8.131123114720589795e-01, 5.561928877611953537e-01, 4.162699527710790881e-01, 1.222696803410284611e-01, 5.218529920606688188e-01, 7.558444699213047180e-01, 3.589850553997770560e-02, 9.259277043555176334e-01, 1.909838233253059459e-01, 6.021539420240660245e-01, 7.101618938551378379e-01, 4.078810113781733970e-01, 9.260416922431102815e-01, 4.938882199816005958e-01, 5.112536370414601239e-02, 6.571784530813803982e-02, 3.782475051830824775e-02, 8.129770744425405260e-01, 1.342181935041427687e-01, 6.245866716928122342e-01, 3.724693295602518606e-01, 7.929383279212876001e-01, 3.382244395157363859e-01, 1.765105859109534769e-01, 4.103138520309587145e-01, 3.247221395664840471e-01, 6.313395378855242157e-01, 3.080876159366168765e-01, 1.954782961767673466e-01, 4.757072692852839374e-02, 2.423083022857906998e-01, 5.831520563629716269e-01, 5.950439021389546390e-01, 3.139218057596614431e-01, 9.059664457395110171e-01, 3.714899076038377101e-01, 2.368336635641894450e-01, 9.548276517267912933e-01, 2.137803525826248163e-01, 4.877752742169273459e-01, 5.790968574596054852e-01, 6.412399139404562076e-01, 9.062721898058231362e-01, 4.303493843142850994e-01, 9.475053975279210672e-01, 7.956081649960814461e-01, 2.389775203050541474e-01, 9.438097128085792820e-01, 3.838318333574181063e-01, 9.953367655081863941e-01, 1.414908866353053463e-01, 4.165005846207616158e-01, 8.252339850018398648e-01, 7.898421194778095789e-01, 6.094122853365963044e-01, 3.619324291827061835e-01, 9.634287186012819859e-01, 9.876139551160257879e-01, 9.607012151645106801e-01, 7.410975755381914443e-01, 9.719794701638616585e-01, 7.958715154071911366e-03, 7.180235185483732074e-01, 8.065628352329420325e-01, 6.964041907409004861e-02, 9.863608107298366123e-01, 5.631847432574090817e-01, 8.837752650282001410e-01, 5.714418855374147066e-01, 6.367492812840054583e-02, 2.742054723473902333e-01, 8.726815985192795111e-01, 3.265115112459384683e-01, 9.057941805316200856e-01, 6.119695658103275759e-01, 5.480392271259078296e-02, 4.636182585848682702e-01, 8.390524645410381288e-02, 1.032548259969141985e-01, 1.132638748769333875e-01, 3.381324666023695080e-01, 6.279118436403853254e-01, 7.155867306119902960e-01, 7.330564230220002475e-01, 5.688395166291897453e-01, 2.051761726213830739e-01, 2.478375204195464865e-01, 4.357683755503797829e-01, 6.874594630330327361e-01, 9.532378468676832028e-01, 7.981332980776304487e-01, 1.839872973697360692e-01, 3.492010187015717748e-01, 8.691494785503880438e-01, 5.808219761116460989e-01, 2.882351598337863918e-01, 9.433350416462374377e-02, 1.785283834271760364e-02, 3.626692187215452834e-01, 6.332910585323379138e-01, 9.555392730022509440e-01, 8.083732867073722961e-01, 2.363908151581478601e-01, 7.625108316086904869e-01, 7.019679972278456415e-01, 4.353294720105521654e-01, 7.742594072080726253e-01, 4.796998662897461463e-02, 8.581871389263344696e-01, 9.667473808740537633e-01, 3.020920729707220476e-01, 3.895642169857039816e-01, 2.044820717221035034e-01, 9.244596915339533538e-01, 2.933035837363421883e-01, 6.009519467961388361e-01, 8.480496915483795028e-01, 4.577753545497667553e-02, 9.579061708175130863e-02, 9.108392853070493844e-01, 4.835570981538117596e-01, 8.467046470567217709e-01, 7.452546637577325273e-01, 4.417028574061626078e-01, 6.422731740907400289e-01, 1.674936217808784544e-01, 1.057697707426045602e-01, 8.301118651754825217e-01, 9.805262765570127437e-01, 7.352515222683257967e-01, 4.898632379535922676e-01, 6.505664853104885237e-02, 4.720297822165809287e-01, 2.683717019794401581e-01, 8.538302129655135353e-01, 5.052774826276053011e-01, 7.865968674231825775e-01, 6.376706752107359488e-01, 2.446302731133018493e-01, 4.253663404307692075e-01, 3.496591379975930169e-01, 1.225960660212802034e-01, 4.739487570116328596e-01, 1.852973694733908439e-01, 2.909944061955152539e-01, 5.139027684671233498e-01, 8.101961159914947697e-01, 3.470944846306652648e-02, 8.094750000083020813e-01, 8.624198256672171992e-01, 9.832578898918827859e-01, 2.595647982326684811e-01, 5.614068925747918160e-01, 8.214881442848726012e-01, 3.136301509345995053e-01, 8.103562644540117654e-01, 2.634556391568746991e-01, 9.200054769226140294e-02, 9.444771699103046148e-01, 3.616870294929541152e-01, 1.955896005129110216e-01, 8.413862574118079474e-01, 7.384572389709477269e-01, 6.375808959975162171e-01, 8.025669742750209945e-01, 5.224023529288475132e-01, 6.880965678893262716e-01, 9.765114454466934379e-01, 4.365910429834211071e-01, 8.457646730367081034e-01, 5.905494414737068043e-01, 2.534984168656698178e-01, 3.340518142471448626e-01, 4.006253261164720580e-01, 6.659805280862202137e-01, 8.299035593550805334e-01, 2.342720806720927917e-01, 4.950692556941712619e-01, 5.102202388619286877e-01, 4.844680125345957600e-01, 8.695706652233495815e-01, 8.597305505896931654e-01, 2.861806215334763426e-01, 2.402991700547711940e-01, 9.597381893135112918e-01, 7.794975432948525462e-01, 8.792339030364962893e-01, 5.430601930823013568e-01, 4.294861407900001926e-01, 1.395379278369869303e-01, 4.164448860159429278e-01, 7.485449660521541482e-01, 4.849768553844365782e-01, 4.220047096630955563e-01, 8.457580564666113965e-01, 4.739029073960591698e-01, 9.407009665084995476e-01, 9.122226194513427533e-01, 8.417121922425429004e-01, 3.931612529544105117e-01, 3.507737682642665944e-01, 9.784875001755696244e-01, 7.595224159439619704e-01, 3.378623961255870500e-01, 3.315316804256837058e-01, 8.052826508399604233e-01, 7.508590686828418015e-01, 2.089611071927916230e-01, 1.335293735147994598e-01, 7.102404329938637184e-02, 4.324311980657512960e-02, 4.223648764179310094e-02, 2.676547533549686886e-01, 2.712027806359853521e-01, 6.611247591792984712e-01, 2.002685608421033159e-01, 1.674652935467169368e-01, 1.510864189523294376e-01, 7.118523833766872144e-01, 1.159368817302539323e-01, 7.278713170637565177e-01, 6.909561793545749842e-01, 7.448282111718133036e-01, 8.588539467990315979e-01, 5.530955253197489263e-01, 5.267501977118640433e-01, 5.003723853553269096e-01, 1.600135373685178386e-01, 8.821275391206608862e-01, 5.850145054929094535e-01, 3.116326727381386608e-01, 4.639641643855954012e-01, 2.210574195175499523e-01, 3.655228291991273748e-01, 9.189802540842108014e-01, 9.652093122080200871e-01, 8.556255113423769654e-01, 2.088085904676382221e-01, 9.759682737165458200e-01, 6.433659061674018576e-01, 7.936214642278385800e-02, 5.414024535447446995e-01, 6.525712940766050796e-01, 5.538660275731485116e-01, 5.267978196143801028e-01, 6.771313302494103015e-01, 6.406413396245227432e-01, 3.915383344600520954e-01, 6.607902585429625830e-01, 7.138242072668363747e-01, 3.665903980077020452e-01, 4.415183106651620615e-01, 8.726088622059667843e-01, 5.589188409660860168e-01, 4.851608073076694172e-01, 3.430864034318741318e-01, 4.827101858226373610e-01, 9.327705974762693364e-01, 7.432505131650536390e-01, 5.702218721241218979e-01, 7.343028461106233806e-02, 1.122341944051460233e-01, 3.126677346251413026e-01, 4.157084032701895970e-01, 9.561036807560236994e-01, 6.389366935274626291e-01, 9.419413129153373365e-01, 8.619491044118763323e-01, 7.830592331880587009e-01, 8.082976513953796585e-03, 4.120629836192158529e-02, 1.039431640817701785e-01, 7.264400587648234264e-01, 4.968161454880416494e-01, 1.145703092547092489e-01, 9.138889371267783224e-01, 4.537067704172756399e-01, 3.395181239533185402e-01, 8.950741739917670303e-01, 6.627180609151953616e-01, 3.579095722875796359e-01, 5.103482886850134737e-01, 1.365416953226643859e-01, 4.084872802108613365e-01, 8.286242262644331058e-01, 5.865426665805896222e-01, 4.013994508290550378e-01, 5.558888267256952703e-02, 4.031034330815983502e-01, 8.606749472467307704e-01, 9.875479935876434467e-01, 7.001682013561483231e-01, 1.746007442388141651e-01, 1.373169763068853855e-01, 8.485575086221547325e-01, 4.826873107447847144e-01, 6.203498455126794653e-01, 9.943217799932335677e-01, 3.083067789049712681e-01, 4.719070259826110836e-01, 2.326259039960422437e-01, 7.979536667456329502e-01, 8.573925056679853052e-01, 9.590762192428652355e-01, 3.068050876897047141e-01, 9.561895642759589142e-01, 6.120653397658851746e-01, 7.804989715298262798e-01, 2.624224198738577818e-01, 7.509427174503069402e-01, 2.859509458431220841e-01, 1.539799759584405403e-01, 4.437152718884259661e-01, 4.803121879139085615e-01, 5.331976196773134669e-02, 4.565428731559114106e-01, 2.033497936875775791e-01, 4.680825904720535835e-01, 8.715831735403141156e-01, 1.696496558831950274e-02, 2.052939922043173770e-01, 1.342229042747991041e-01, 8.788752265617844062e-01, 9.326959730211605848e-01, 3.156935050256338693e-01, 9.987068636186552384e-02, 9.697940083781469989e-01, 8.229831952736657574e-02, 2.142780805387819662e-02, 9.746135478874180524e-01, 3.522361409757993611e-01, 4.647005152854594701e-01, 5.860714046540713706e-01, 6.041525467099019275e-01, 5.573442771341157176e-01, 6.424018490328921027e-01, 7.484529876661133452e-02, 1.047015933096707013e-01, 8.173909810356956573e-02, 2.206161389771764958e-01, 1.946741655180969990e-02, 1.543529331126297921e-01, 4.048558712157987460e-01, 9.755237499624558328e-02, 1.521589593836273901e-01, 7.362213721816953660e-01, 9.139055000837151832e-01, 8.361451731482187899e-01, 5.498112085000395055e-02, 1.998401868520820190e-01, 4.508276274233101177e-01, 4.785149603996950995e-01, 9.930946822353916570e-01, 6.559298652485127112e-01, 7.356933384519374064e-01, 4.960323317809306465e-01, 2.335336562784938366e-03, 1.084345224878587033e-01, 3.349388029310632064e-01, 2.232059085967117995e-01, 2.818443348399368720e-01, 3.673956136278828111e-01, 2.647761796222715680e-01, 2.434857335395247402e-01, 7.071994175460037946e-01, 8.327344669265043242e-01, 2.471815797485344968e-01, 2.152117027218181794e-02, 2.046054702558070260e-01, 3.516162126286489359e-02, 6.686273947806595785e-01, 9.960375933259435488e-01, 6.570606707941418767e-01, 3.628785733226509436e-01, 7.061686617593340154e-01, 2.636555223749074695e-01, 2.140325322205078873e-01, 9.849585770149522912e-02, 2.582116362211025473e-01, 4.462548269639541321e-01, 2.603593191265569651e-01, 4.126746787678863271e-01, 8.958798196371655642e-01, 4.266445236798220297e-01, 1.194447910574756855e-01, 3.967174645969658853e-01, 2.704093362327615879e-01, 3.078346133696062137e-01, 8.117220513352968458e-01, 7.456515302794717304e-01, 7.123883296463687786e-01, 1.478169743123278479e-01, 7.907278744362234990e-01, 7.572359900226295348e-01, 6.259014981434399827e-01, 8.453559958685979980e-01, 7.556464047680531981e-02, 9.097076859317286823e-01, 3.704687708199411178e-01, 6.506343959065756799e-01, 2.422506959227342105e-01, 6.396472822474212894e-01, 1.499760692736461787e-01, 2.296674335811164092e-01, 7.685196047120799179e-01, 3.102217346018291133e-01, 5.422670796327338366e-02, 6.779007084816102147e-01, 2.550705243841782099e-01, 3.385920837486473545e-01, 4.021155384961427881e-01, 5.534850102934265603e-01, 5.071211262047056190e-01, 5.982296973159310083e-01, 9.274302766095481321e-01, 2.503871665961110438e-01, 6.071312357507232527e-01, 5.699366678127960606e-01, 5.265768857754682397e-01, 6.524215958952413186e-02, 4.143748652286539658e-01, 7.618036419895956035e-01, 4.688421112473312724e-01, 8.792496995204923671e-01, 3.223827709084734483e-01, 7.044976623464058729e-01, 2.342521763361119225e-01, 6.924622554378374595e-01, 5.073125236489517409e-01, 3.194545784287111667e-01, 6.322561984421725123e-01, 2.645099727718975835e-01, 5.339893756244920020e-01, 3.233264683966862590e-02, 1.520364557061970601e-01, 1.336545225832832806e-01, 7.641847666391471394e-01, 9.373256649364045678e-01, 7.294230760107708322e-01, 8.309339868105903859e-01, 5.697128239124427118e-01, 3.165946986089081538e-01, 5.949399883421754298e-01, 3.886583556280971963e-01, 6.872868409098276121e-01, 2.317868534234711897e-01, 5.437574657119201849e-01, 5.042877906062441795e-01, 1.330262255930701742e-01, 8.751885193695556620e-01, 2.061192506814900072e-01, 4.840432500153289408e-01, 3.409381041407901214e-01, 9.085037139725016253e-02, 2.326608591717517216e-01, 1.752236405543775577e-01, 1.096751623543821691e-01, 5.247995934505338411e-01, 7.315317942687821207e-01, 8.017542890053301896e-01, 9.651971420041715044e-01, 1.513129082830850236e-01, 9.259944067780787602e-01, 9.608168497405916719e-01, 5.307343078206792075e-01, 6.205030919851713955e-01, 8.083028921523955912e-01, 8.248081427311220182e-01, 1.209990873186417987e-01, 6.722987303045582230e-01, 6.662501380452483524e-01, 8.739481577843612181e-02, 7.049655613805321241e-01, 7.819448639053095951e-01, 7.976808046320756906e-01, 6.042651787736446067e-01, 9.038352125842536999e-01, 5.879189183059240209e-01, 9.078167909905119348e-01, 8.211159181094757065e-01, 4.135365562722830846e-01, 1.065599764166088453e-02, 5.487585457854310400e-01, 9.892946573734073823e-01, 1.958235718430429984e-01, 4.365911967650087377e-01, 5.109474602192648485e-01, 6.134730734304233435e-01, 1.611734202796227533e-01, 4.867144018384976789e-01, 2.805722432009694067e-01, 6.561234179934544164e-01, 5.862013295666509277e-02, 9.233591175925568439e-01, 5.624093312409573775e-01, 4.868113072542758490e-01, 8.391502969451600791e-01, 9.607568138217315035e-01, 9.524750133384696227e-01, 6.272921331745099152e-03, 7.594326890789903084e-01, 6.919049421360559116e-01, 4.444372123327768320e-01, 9.261486603125415051e-01, 5.827696492225107328e-01, 6.863327969655728944e-02, 7.112160373766892585e-01, 2.741173024478708031e-01, 4.732448612330977800e-02, 7.254128252494557172e-01, 6.466207404178256901e-01, 3.246254510645751878e-01, 8.070033487143398743e-01, 7.898603807914763575e-01, 8.814632087277952943e-02, 2.662278643544212509e-01, 1.466964980364185780e-02, 2.022762477127268699e-01, 6.237409896397234643e-01, 3.799995563856429781e-01, 7.403659463829476151e-01, 1.621431775832354871e-02, 5.547687077500516040e-01, 6.841615330326713540e-01, 2.650000083229812065e-01, 1.417329955952616738e-01, 1.696123658729832839e-01, 6.734365710440561870e-01, 1.472902146059386908e-01, 1.129178955159526876e-01, 4.361755434772391360e-01, 2.313239838007260796e-01, 1.692852933223134015e-01, 2.413112365415222560e-01, 1.934710051309412870e-01, 7.064846219472845634e-01, 4.429650267131224894e-01, 2.940509425933318099e-01, 7.987720183849522648e-01, 9.368738941756930005e-01, 8.329089983318159751e-01, 6.677866890545762768e-01, 5.509690345202349349e-01, 4.913318103811488147e-01, 8.625121818284364750e-02, 1.472126752663661664e-01, 5.474500101761141380e-02, 9.565309254272079675e-01, 5.180636400865081814e-01, 3.527919204001569997e-01, 8.446167479616718821e-02, 9.363414719053086976e-02, 9.477314486053843856e-01, 2.028073864310156460e-01, 8.170117611204107400e-01, 8.950845417814566884e-01, 3.525028743210661952e-01, 5.976719870461000284e-02, 7.294094996843688561e-01, 9.115431981236715719e-01, 4.639219229927616372e-01, 8.629845548865717753e-01, 1.209419868624247579e-01, 1.351244846935468480e-01, 5.064869815853300095e-01, 6.078096090443130262e-02, 6.843602784587727861e-01, 2.978325864361414110e-01, 9.825368650941950222e-01, 8.099732703825751612e-01, 8.435287998542576604e-01, 4.258491866872048809e-02, 5.728177383601938955e-01, 8.060049473557409083e-01, 8.421085632749734096e-01, 5.473750840870471590e-01, 7.888918458794054178e-01, 4.290652834016158157e-01, 2.758611840552992467e-01, 7.729247137998375428e-02, 8.305362988241048461e-01, 9.381622464507436421e-01, 2.701021162308970061e-02, 7.076413276865669566e-01, 8.684066402844675681e-01, 8.392895856358968398e-01, 1.110474858917769592e-01, 4.561196392912882924e-01, 1.719141665936741170e-01, 7.162987829313055554e-01, 2.955282567480729816e-01, 9.129417494179273840e-01, 4.702860624924654065e-01, 4.910847409955900605e-02, 6.619582884789519950e-01, 5.055793551693772425e-01, 6.929910880738412438e-01, 9.498044531021339054e-01, 8.425123267017678996e-01, 5.020159833526915971e-01, 9.688017965532080833e-01, 6.157870468431677624e-01, 6.779023766427342279e-01, 5.251844789521218360e-01, 7.503228303627637596e-02, 1.963481727718535685e-01, 5.646152765320564537e-01, 4.675932623136287991e-01, 3.520804441961807862e-01, 1.337008201050807477e-01, 7.452635024598461277e-02, 6.965700007303597951e-01, 9.750079053735435375e-01, 4.473298956046833363e-01, 2.421959908395916461e-01, 2.218651984824676626e-01, 2.936031624891039526e-01, 8.699976407078682250e-01, 3.005844658107287987e-02, 8.665662653968322360e-01, 1.907758782994385949e-01, 4.881010787465315248e-01, 3.317898953734286227e-01, 5.322482141574439440e-01, 4.277921441117776280e-01, 9.217837915624884637e-01, 5.364731710057273339e-01, 9.691149516231821748e-01, 1.759722839502512737e-01, 1.737675850597409921e-01, 5.734486740357143120e-01, 7.104625851351564769e-01, 4.285196492205207708e-01, 5.959911914420257251e-01, 8.188088247990905622e-01, 3.877763430858777172e-01, 3.072503349832111930e-01, 9.462457122758018979e-01, 7.293652338700460369e-01, 7.008692080087093323e-01, 2.485912166709584523e-02, 7.157385557688384914e-01, 3.101424003597484935e-01, 2.815993578590372248e-01, 6.239968033585754359e-01, 9.271876538071163187e-01, 1.150189058882667842e-01, 8.867663528155385055e-01, 5.057138251593272515e-02, 4.381666567415339886e-01, 9.540815337347842151e-01, 7.397506781467180215e-01, 5.385466738420500166e-01, 4.839057931681745583e-01, 5.680796219781768519e-01, 2.674182085454325231e-01, 1.961196651568432314e-02, 9.656061452560873448e-01, 1.690021296549847618e-01, 1.513506221260683127e-01, 2.849650369833721664e-01, 2.840243049268414421e-01, 2.365830217193100882e-01, 4.623712232133216360e-01, 4.452082979130939644e-01, 5.875727639319853202e-01, 2.615378987777109421e-01, 8.666449700632771203e-01, 9.587127568080205942e-01, 7.141214386999558128e-01, 7.345466781051707139e-01, 8.542640043176207010e-02, 7.771015506911543858e-01, 3.269139019346513630e-01, 7.333638629018034427e-01, 2.061178053351038209e-01, 3.132094719168684871e-01, 6.458393979898043868e-01, 7.963467781397011169e-01, 9.003006604364185428e-01, 6.172303122954331256e-01, 9.375577553069611714e-01, 4.703523156834749641e-01, 2.042546799313571179e-02, 8.591263808516944600e-01, 6.371847204463068071e-01, 6.228701477006303167e-01, 2.329126801027453508e-02, 2.828266893027142070e-01, 3.371314003251247443e-02, 9.680158623275691987e-01, 8.122161767167866975e-01, 6.000960883932240364e-01, 7.872648754026838613e-01, 3.422673989452770238e-01, 3.523851509917895197e-01, 7.031531331054858835e-01, 6.286915049846374393e-01, 3.597640100903438665e-01, 6.812187708286502330e-01, 3.788757352526664346e-01, 3.833050980703345267e-01, 7.699511001981411695e-01, 5.822349211442734429e-01, 2.316070929666801392e-01, 5.848878789072378126e-01, 1.124809626983768185e-01, 1.572391942854424740e-01, 9.961692402380419864e-01, 3.045722414385891863e-01, 5.756985277548191116e-01, 8.851372672863423441e-01, 4.166362741046679696e-01, 2.727453584861072589e-01, 9.342832685704203222e-01, 6.332746170132440566e-01, 1.929518699813944638e-01, 5.458720287191830556e-01, 7.521460746212744741e-01, 8.150542899051140822e-01, 5.623992288985103505e-01, 3.807611301266015658e-01, 8.675642981661826347e-01, 9.470691357159474189e-01, 3.952841990746894241e-01, 1.152032849056748298e-01, 7.516003309291109380e-01, 3.364867775051883503e-01, 7.236664503504591783e-01, 2.829591430714474901e-02, 4.758502884930510685e-02, 6.207520349182433783e-01, 9.316431739213794083e-01, 9.410611521415245262e-01, 6.977426439289216020e-01, 1.759338167867739167e-01, 2.537743773211408316e-01, 8.564817102058411846e-01, 6.854511599861171645e-01, 6.527621481426145733e-01, 5.980768085137746701e-03, 9.313737788187226307e-01, 1.534787024191783811e-01, 2.579786725150537419e-01, 6.899861339556615514e-01, 1.938131922260817874e-01, 7.909348824940208855e-01, 2.920003576122084943e-01, 9.546117367516405716e-01, 3.376302583571139104e-01, 2.189302670841833665e-01, 6.512613196801934068e-01, 2.040630004065580039e-01, 3.348647593231023900e-01, 5.779858770820676950e-02, 4.255605070885004615e-02, 1.732229393330715073e-01, 2.133276225927714653e-01, 2.799597884847930263e-01, 1.764898621548395274e-01, 7.211238027671118545e-01, 6.082679373395936118e-01, 5.470861118279154445e-01, 5.686557118934970623e-01, 5.654556471414866614e-01, 7.136736086989565742e-01, 3.805193163472945783e-01, 6.744704664180635190e-01, 3.496963453735875693e-01, 4.517654149140772069e-02, 4.008839592429871423e-01, 4.267176673488949357e-01, 3.308207110776544280e-01, 3.544264265730369678e-01, 7.700638708677683963e-01, 3.747367807167757414e-01, 7.730347835989678229e-01, 7.691527685110829959e-02, 8.823498080743814587e-01, 1.369141210534585151e-01, 3.433300054814068525e-01, 7.285666956990093368e-01, 8.657810980853304361e-01, 5.306303968472276811e-01, 1.445473270759417839e-01, 3.882280787031502922e-02, 1.061669264387996581e-01, 5.975898871035493221e-01, 9.593593136897751172e-01, 8.325160521943333891e-02, 4.455538817081343694e-01, 2.890298709377610575e-01, 2.243941854495653254e-01, 7.793681588733468724e-01, 1.605827414104119832e-01, 5.702814638124253932e-01, 7.424279132726525621e-01, 7.868453324055045828e-01, 2.852797991903507154e-04, 5.553210595274258310e-01, 6.149933955139925690e-01, 4.272425150436037211e-01, 8.705453298198686518e-01, 6.454415033244322863e-01, 1.830262868380873598e-01, 8.447916277268429086e-01, 2.626035298527225614e-01, 6.950309676114800883e-01, 3.136618927739746043e-01, 4.413660952694010708e-01, 2.061153764284321399e-01, 2.831827980319995275e-01, 4.376016777446682937e-01, 8.853377295692478333e-01, 8.908208600607182559e-01, 3.134000296909875694e-01, 5.521432487911688280e-01, 9.469876907268302002e-01, 9.875233858213352534e-01, 3.679714870452889808e-01, 5.889581461930263329e-01, 9.503698525560460020e-01, 7.714632201204306705e-01, 6.273719347662094492e-01, 8.111054595600750705e-01, 9.092309530740343426e-01, 6.543920178354788453e-01, 1.032497100663312267e-01, 4.635150082547708772e-01, 5.668039674147298257e-01, 2.072915881116420556e-01, 8.838073853985325412e-01, 6.251022814444738840e-01, 6.745961571570070481e-01, 3.083627924763309713e-01, 3.661469552044712139e-01, 7.714082846891798795e-01, 8.057732681715036593e-02, 2.055685860736210513e-01, 4.734960826332388351e-01, 2.122272192155389425e-01, 6.588286009754282802e-01, 4.362331861063435401e-01, 3.987163544037942708e-01, 8.308009020061519756e-01, 7.955029273811721480e-02, 2.776256263161105964e-01, 4.272718866531748788e-02, 5.473441049616141196e-01, 3.146214163990487811e-01, 9.274886504293055056e-01, 6.427748063948923729e-02, 5.230913097863320038e-01, 2.410669392040253878e-01, 8.674945680621435340e-01, 3.771758250962228831e-01, 7.381863457024560038e-01, 5.749105437591808254e-01, 7.235731404551654089e-02, 1.797168299299840150e-02, 1.248424291134976744e-01, 1.168040455271186773e-01, 1.151319910933608776e-01, 3.504097515810604691e-01, 8.010499079875660344e-01, 7.682191318941355984e-01, 3.575931028582909343e-01, 4.896232291090541477e-01, 2.315152455261040854e-01, 1.749239125356491231e-01, 8.766096708767567858e-01, 9.262089033854267184e-01, 5.666148253732739004e-01, 1.542465781868992102e-02, 4.885670866534759238e-01, 1.711088946442747838e-01, 8.283549896069152263e-01, 7.500938512642517653e-01, 6.799048761130925544e-02, 9.108256772712908234e-02, 5.709532694083255810e-01, 5.862903962583947415e-01, 7.763139625606498839e-01, 8.079228174837006504e-01, 2.885690769579367099e-01, 6.132041364032957409e-01, 1.390568741228833671e-01, 7.068906624226537483e-01, 1.228129742450837503e-01, 5.667569521441595537e-01, 5.403033964252779153e-01, 5.535623048476685515e-01, 5.961044133123101219e-01, 1.883636115171369863e-01, 6.622171067640465481e-01, 6.479963883268996527e-01, 3.033600261618608629e-01, 7.772880714261032331e-01, 9.973499585001812662e-01, 2.704955102829266766e-01, 2.376682813276077277e-01, 9.027237303023087911e-01, 4.781631699922828660e-01, 3.291680223985188891e-01, 8.378759924276650839e-01, 4.794382800302911529e-01, 5.809532129531678329e-02, 7.281484985637481921e-01, 1.987531368448922919e-01, 2.595305955263286779e-01, 2.950103471521582921e-01, 9.494768799448480290e-03, 5.528526328695611003e-01, 4.432625119571020345e-01, 6.537600924356055943e-02, 4.707227701329599889e-01, 8.821728220941287280e-01, 9.792405968387665749e-02, 2.267343739906988731e-01, 2.957980747349133743e-01, 8.922950112375734877e-01, 7.111493065484127962e-01, 9.229492963739015510e-01, 3.526832783059202225e-01, 4.315559179277692059e-01, 5.337877013404092041e-01, 1.360098098717505699e-01, 7.336685610921229728e-01, 9.855919091172624658e-01, 6.758263404299889032e-01, 4.513180282502399776e-01, 9.316637868766873554e-02, 6.891872262663053528e-01, 3.496175700958274735e-02, 8.013839733996583892e-01, 4.539019695612880323e-01, 1.740895360515107848e-01, 2.322179641851656873e-01, 9.057797666905874623e-01, 1.469081383632218074e-01, 3.958091129503580885e-01, 1.364985990250611736e-01, 8.712428669320362862e-02, 8.467919827966303992e-02, 1.796074346556126300e-01, 1.863409666104263729e-01, 8.666392534851498075e-01, 6.277883702215529826e-01, 6.425094236871369269e-01, 4.677800149695165999e-01, 2.370233811851480965e-01, 6.983497918064592025e-02, 9.370759531959330646e-01, 1.807542117570605511e-01, 2.544993067072767179e-01, 3.904689869173303546e-02, 9.785856588619421537e-01, 6.510822822803695731e-01, 4.702106022844445565e-01, 1.547464203404567140e-01, 6.656064104072777488e-01, 4.528212279651715189e-02, 3.330203362300996339e-01, 3.833461716419617749e-01, 1.739765729580290410e-01, 1.165109285027537134e-01, 7.090110411435860405e-01, 4.158268326654750435e-01, 4.435572739306313239e-01, 8.919262778033351102e-01, 6.214491063452227682e-01, 9.884115347174646793e-01, 8.684485824871532866e-01, 7.582469842635101154e-01, 9.898527840135179501e-01, 4.932061729718539150e-02, 6.487039262316800503e-01, 6.923915217003441258e-01, 4.815548416395233344e-01, 4.764957766866245170e-01, 2.959456423878482068e-01, 3.398211338412915339e-01, 3.421637997287791944e-01, 1.491276463787550022e-01, 8.519549670338901759e-01, 7.046397780263121691e-01, 1.405261818916508920e-01, 1.127547064953797612e-01, 4.639448870935052316e-01, 1.044336770114386997e-01, 3.577227684471842584e-01, 2.267415371120819756e-01, 9.655179635087218770e-01, 7.075737068408597397e-01, 8.299482260862001137e-01, 2.394981737599593541e-01, 2.139813008941932049e-01, 2.093932851752336732e-01, 6.537553833535004744e-01, 9.550743239969884391e-01, 6.203842641824661858e-02, 5.747941443794967603e-02, 1.696399032482398817e-01, 3.259065415299035040e-01, 7.285587612588440010e-02, 1.022490054709781215e-01, 1.850795805605865429e-01, 5.758455372513235915e-01, 4.341085385262021812e-01, 6.044021879610221859e-01, 2.441370954034128571e-01, 8.505956499094898815e-01, 2.226868459155278146e-01, 8.747413703944046937e-01, 3.385231605189165660e-01, 1.200936427405672052e-01, 3.983571526121243433e-02, 3.211735562484370199e-01, 9.138855063682712609e-01, 3.629284843362791113e-01, 6.952321019297542648e-01, 3.469066859633506139e-01, 9.940178511466488676e-01, 6.218779236182028075e-02, 1.373106215892897775e-01, 1.935946186557381821e-01, 9.158840306226517791e-01, 2.942346734206262027e-01, 8.747270169344041335e-01, 2.568545306135546769e-01, 1.522980025499900691e-01, 3.221510047252412190e-01, 5.051408682315612353e-01, 4.174455368594902627e-01, 6.161050116413615552e-01, 2.589887181806218089e-02, 3.387687107223387728e-01, 2.145831363703114281e-01, 5.118869510803617517e-01, 2.142698496428752375e-01, 2.987151289338055848e-01, 3.754788229080541218e-01, 7.827462111174015025e-01, 9.031334504823551601e-01, 2.388056418652343693e-01, 4.288792546609704881e-01, 2.350208222060889626e-02, 3.463237777090738545e-01, 5.361995920825078921e-01, 1.504175632721498901e-01, 4.069630583837515747e-01, 1.203356656481870263e-01, 9.045067011437042392e-01, 5.562440885759701859e-01, 2.806577873877300067e-01, 4.869180155351774397e-01, 2.936391917516912864e-01, 1.444652071956641914e-01, 4.870602597938734069e-01, 5.339875520848784696e-01, 1.558035829109673254e-01, 5.819365508200280424e-01, 4.748026149216489911e-01, 2.786750355300299242e-01, 4.942285824422260609e-01, 1.346536469158706451e-01, 2.331974934438790503e-01, 1.539464504601025518e-01, 9.038228193101902619e-01, 9.978887997126086873e-01, 6.169288912156400961e-02, 7.920201243374994649e-01, 2.300554322067353274e-01, 9.121841571156651396e-01, 4.358117747506941586e-01, 6.691626749295392917e-01, 6.718755662190795119e-01, 1.620422835412314022e-01, 6.043750849208494591e-01, 4.698423295528213472e-01, 6.102201987176970599e-01, 3.398862278725710562e-01, 1.759509672711732364e-01, 3.297568725295038639e-01, 1.627993812465015067e-01, 2.899695807909533629e-01, 6.745167621490799625e-01, 8.424277508272273174e-01, 7.717662491404284619e-01, 5.113554052953871443e-01, 4.539154827497515060e-02, 5.758119310490500409e-01, 4.152283465714272370e-02, 2.876050414464735860e-01, 8.172257794218096283e-01, 5.645764809636037995e-01, 5.028130611805589067e-01, 6.136401013299639384e-01, 5.479269772975550179e-01, 6.867475252142433151e-01, 4.163862969817185289e-01, 2.278850813864292946e-01, 5.050770658836863936e-01, 8.366902886923175409e-01, 8.301931040734882306e-01, 1.707225478851675526e-01, 1.260887438002014360e-01, 5.010718783177973146e-01, 6.084552271732148743e-01, 7.876590074903440375e-03, 1.730761182888274352e-01, 6.818799208194297190e-01, 4.744677350947071326e-02, 7.995375433510555629e-02, 3.445658781841562379e-01, 2.294969779546752464e-01, 2.808061223052660260e-01, 7.860504101786770503e-01, 8.910643698119241618e-01, 2.388783690696380524e-01, 8.591504911950883505e-01, 2.887495262583789635e-01, 6.453119782238015967e-01, 3.126981896590080856e-02, 1.178466306036264344e-01, 2.250154957175487247e-01, 5.229718347694013447e-01, 4.291662753516627404e-01, 3.983664748766271857e-01, 8.142672771046371993e-01, 7.409578107827131666e-01, 4.329629619686398700e-01, 9.963845717901311794e-01, 8.104923411190775306e-01, 2.033544907241504121e-02, 5.704745872056762312e-01, 4.239269525243867520e-02, 2.263651978959676236e-01, 8.380275261843859180e-01, 1.081637621292986726e-02, 9.963495413360670128e-01, 2.168537021132408427e-01, 5.459649949530187563e-01, 9.651954535714153405e-01, 5.870307546616083672e-01, 7.699409247458610661e-01, 7.872993387233584439e-01, 1.211035802021188656e-01, 5.113591544194080463e-01, 2.047997456875848832e-01, 1.371503547058333661e-01, 4.458655444648476074e-01, 9.478928372797977842e-01, 9.511207485069292922e-01, 1.765293990116728329e-01, 1.841181833164063919e-01, 9.336809276015859416e-01, 6.944216871318835693e-01, 9.821176887352315310e-01, 3.876813954350041835e-01, 7.959219720313247537e-01, 9.949354502436913439e-01, 7.174684834463741501e-01, 6.844103834892935057e-01, 5.163866428531073138e-01, 5.094909784150796206e-01, 6.599435050940637426e-01, 3.359641863479524010e-02, 5.117923844133362987e-01, 1.104832299574738386e-01, 2.011865805823853659e-02, 9.017172747723587456e-01, 8.222486114714303573e-01, 8.781207041083686216e-01, 3.814673363904631520e-01, 2.997955657246950678e-01, 6.104592841211946563e-01, 2.566766242776664653e-01, 9.265849043335733226e-01, 8.798054437820069795e-01, 5.562486085272982939e-01, 1.206327005648665518e-01, 9.266975895889485448e-01, 7.972860567673772936e-01, 8.510400805614284359e-01, 5.333482271338723102e-01, 6.136005011902729428e-02, 1.035002390152219010e-01, 4.500991500448969229e-01, 3.277345290046851378e-02, 8.989361876339275748e-01, 1.186918556750770071e-01, 3.031905963487956379e-01, 7.910035231774460440e-01, 5.473057817407549486e-01, 7.234363068452762668e-01, 8.414349499671047727e-01, 1.053028847792139427e-01, 8.504108719198115729e-01, 1.250846928552240278e-01, 2.168791946113362429e-02, 9.124352555488202121e-01, 6.649178965337854130e-02, 1.356567798350448162e-01, 4.841459316353201037e-01, 4.292163899796683224e-02, 3.592122774226861881e-01, 2.881582515113303433e-01, 7.021265948804884804e-02, 3.847507762932624864e-01, 2.627401537612998328e-01, 1.306818043488732796e-02, 7.400710345352743413e-01, 2.284808421339602491e-01, 4.090392273196654105e-01, 2.502528753930214345e-01, 7.716730141281372690e-01, 5.283789484077783261e-01, 5.899370563597589046e-01, 2.999842383504754822e-02, 2.350430118994625561e-01, 5.286884909900464447e-01, 6.965577255683764735e-01, 9.176859632430052205e-01, 5.897327133334447913e-01, 3.756132402388992486e-01, 8.333877522242512381e-02, 5.711417437121137919e-01, 4.986713211738993956e-01, 9.461645887075627315e-02, 4.242519487312368942e-01, 6.704448808010626815e-01, 9.940500496423444465e-01, 6.599498435879426195e-01, 1.983165902438698558e-01, 8.441271424302347892e-01, 8.693896758798824731e-01, 2.839476987661788132e-01, 8.093565076045977635e-01, 4.148156719760896505e-01, 1.195598026216481910e-02, 6.942678615448414359e-01, 6.169288841601291429e-01, 7.290624855907021917e-01, 9.961131632647357570e-01, 2.742523475963283830e-01, 7.409502148583813064e-01, 6.916893289307333159e-01, 5.238688193342611044e-01, 8.697260386506134866e-01, 1.391266408430505939e-02, 7.147346269141834352e-01, 3.094195624057101135e-01, 8.320825810006300671e-02, 9.052141878349879711e-01, 5.628969615130743204e-02, 4.803722956464579474e-01, 2.707248713726044809e-01, 7.260389535993357069e-02, 1.258001357545813874e-02, 8.983182011664171407e-01, 2.753874424970096935e-01, 9.490085200692948142e-01, 9.137229007341172993e-02, 7.037486255025080517e-01, 3.174887784478797048e-01, 7.352462235320124107e-01, 3.335805211868660414e-01, 7.061851861641847972e-01, 4.087943632431396135e-01, 7.531011730696124395e-01, 6.913604906505336212e-01, 4.496359122844723610e-01, 3.075134424827737911e-01, 1.239710806373431479e-01, 4.435912832927851879e-01, 3.703664995769682666e-01, 5.351538957005874675e-01, 7.389324866623695476e-01, 4.336680160745878809e-02, 8.893221756812730305e-01, 8.273854098677685398e-02, 9.120503482945040430e-01, 9.656444704761253384e-01, 4.599600724044521916e-01, 4.003158146308576915e-01, 1.542299780075810992e-02, 1.160013090327549345e-01, 7.230175198582355911e-01, 8.814420285077193551e-01, 5.421410441095545485e-01, 1.947517799569687758e-03, 9.434896929725683501e-01, 1.219828106541282486e-01, 8.061919585198499272e-01, 2.144789246947789441e-01, 1.396668948632497631e-01, 6.680479232500007303e-01, 6.898019758038078653e-01, 4.039855823400321233e-01, 7.099512156380040073e-01, 4.280967320991549419e-01, 8.647792009523690426e-01, 5.742074678195149273e-01, 4.820949171255364263e-01, 3.898190645173639779e-01, 2.919789857687691281e-01, 3.747634308281339033e-01, 9.496735560813939214e-01, 8.803728255355010024e-01, 3.523871343753275931e-01, 2.628508236048386904e-01, 7.603663542360535876e-01, 6.379830153506500512e-01, 8.868731423976787820e-01, 2.357839148399272777e-01, 8.254109279049270595e-03, 7.317296502088467269e-01, 6.724749194366965721e-01, 6.285030202112892317e-01, 6.094065689030371269e-01, 6.246229928567987866e-01, 5.261132734125569810e-01, 9.240090892043838489e-01, 2.536652797860546732e-02, 6.056483848722203911e-01, 1.960663442686941815e-01, 2.930978032834496982e-01, 1.122938433046880013e-01, 4.460083823873904341e-01, 7.930960879608931480e-01, 9.756148389589990033e-02, 1.460923490247175716e-01, 4.969465174039311775e-03, 4.821430867778993441e-03, 6.909376170010952389e-01, 3.878460589805855091e-02, 3.621900071539142507e-01, 3.982591769930533543e-01, 4.939730356792233490e-01, 5.647020123137013181e-01, 5.946940117658040120e-02, 3.657415970724469667e-01, 3.611889737165327463e-01, 4.984557908069050525e-01, 4.774717988375720146e-01, 2.145923637448940990e-01, 4.634827304890580257e-01, 8.856417046374238655e-01, 8.288738106859454557e-01, 6.612907553853618614e-01, 1.964644459104208651e-01, 3.040423320528400364e-01, 5.442078329154556027e-01, 8.479699620506264690e-01, 4.643622536331694639e-01, 3.179513056226370149e-01, 8.179852285348249152e-01, 7.985396385972030886e-02, 4.057379228102306334e-02, 1.801973748519741236e-01, 6.072428015507139731e-01, 5.972186160334518323e-01, 2.586059472174737084e-01, 8.576818691960336194e-01, 3.631304629094552761e-01, 8.871056269514686621e-01, 1.990408255280201946e-02, 8.372754267652608995e-01, 1.534116712851185949e-01, 6.576413804812154540e-01, 6.431914589862869347e-01, 2.127405892879626614e-01, 2.635221515341577003e-01, 5.581697521205010171e-01, 5.907051155925858721e-01, 9.327236974997881180e-01, 5.461825863734174336e-01, 2.354874996595091030e-01, 5.300454930435567480e-01, 3.501039226599460541e-01, 8.575365911113973505e-01, 2.421616245034633741e-01, 3.562043327104454787e-02, 2.276407243657344315e-01, 4.118286967272439814e-01, 3.324608442461172708e-01, 3.883468781379257329e-01, 2.434959123948791659e-01, 9.187086832482613263e-02, 6.714280466992952334e-01, 1.244457527764799148e-01, 8.369393845465986637e-01, 5.333020224237019491e-01, 7.071534159388565000e-01, 8.821044265306244858e-01, 8.289643737705751914e-01, 8.056561769488846947e-01, 2.000468483113113372e-01, 8.150835883688298811e-01, 5.039758143900937570e-01, 7.665293938915972438e-01, 8.702289652013502907e-01, 2.896731874761950265e-01, 1.705153400000375408e-01, 1.524640237569452605e-01, 5.085963814970428931e-01, 5.757826988944908519e-01, 1.174104147871747605e-01, 6.360983418064016792e-01, 8.559430179331556365e-01, 4.774625754837848457e-01, 6.620804277800702575e-01, 3.854434232546739003e-01, 3.973340961316307873e-01, 3.734097548802995936e-01, 2.873867780064675581e-01, 9.767978919206148358e-01, 3.766459381153958730e-01, 6.125519634055055507e-01, 2.376831347746085898e-01, 6.086360138347420845e-01, 6.402174320240008876e-02, 9.317482740070477387e-01, 1.908296014115761774e-01, 6.771184984650414629e-01, 5.002544134539229637e-01, 9.907033753228026152e-01, 6.697204979431019278e-02, 3.730991269086831319e-01, 7.126098809280605462e-01, 7.172365664387608808e-01, 2.497883211032856168e-02, 3.912078437176491064e-01, 6.686317947999577127e-01, 5.483393129188808279e-01, 3.206521508406043330e-01, 1.491411887015905990e-01, 1.222643945860153319e-01, 9.085668532066089043e-01, 1.135651771193750825e-01, 3.576060837887706789e-01, 8.395250697721978739e-01, 5.709127167882390719e-01, 4.554287717941729041e-01, 3.774156906959105079e-02, 1.238845707182077982e-01, 6.085988839114703230e-01, 9.471752286330594739e-01, 3.209371446037770359e-01, 5.669222776110940387e-01, 9.362672343990193768e-01, 5.779700331709066718e-01, 4.663794273695167636e-01, 6.296087421405741624e-01, 8.409769504485069547e-01, 5.219566782766679180e-01, 7.362250077398784232e-01, 6.473006702509549459e-01, 2.650815289563244748e-01, 1.919206899092570362e-01, 7.808812946663716836e-01, 7.039336121959491877e-01, 1.684811805739546420e-01, 2.596385275429730632e-01, 9.094679076432643505e-01, 5.077782756397902775e-01, 8.672444012424064541e-02, 1.682243716748371976e-01, 6.103949247528042132e-01, 9.452323931469884810e-01, 1.138918767566273332e-01, 4.149701132690445382e-01, 8.726421132302129013e-01, 9.153122755816324174e-01, 1.719331898647932511e-01, 4.728243638451013475e-01, 4.640338155362476180e-01, 8.025105358120124821e-01, 2.318118679560586537e-02, 5.613827164145709370e-01, 6.782361121936824055e-01, 8.528893166534831094e-01, 6.390391357681610707e-01, 9.116769038827707838e-01, 1.314772697595786854e-01, 3.680224820078786263e-01, 9.534045980800002207e-01, 4.899877781213068939e-01, 8.565572929516220846e-01, 1.679183121283313596e-01, 3.569378571069277140e-01, 8.646206195364805058e-01, 8.082211979041388217e-01, 6.021842199221306702e-01, 2.144930168421156080e-01, 3.762370379197975401e-02, 2.481074016033691654e-01, 6.859076265235336534e-01, 4.592378937330144351e-01, 9.199685201118854572e-01, 6.337673983655975896e-01, 8.669269611749831628e-02, 8.544709871075228946e-02, 3.247659309565916197e-01, 3.954125716710536476e-01, 1.832125679234737625e-01, 9.382118923508245834e-01, 2.957890225707407450e-01, 2.897029259540489510e-01, 1.331122241865011491e-01, 4.354239094482693639e-01, 7.657015551355084160e-01, 8.290210921856950854e-01, 6.067981286085371018e-01, 1.243519725621964056e-01, 4.461607681227147681e-01, 3.160852715036706617e-01, 6.832043402637691387e-02, 1.808768594331002788e-01, 9.032331435496306904e-01, 6.847086054031949198e-02, 1.004004346720544227e-01, 3.260868784395304365e-01, 9.392022713693948255e-01, 4.539704762479820910e-01, 1.699279771570262609e-01, 8.283959252154249331e-02, 2.133499247250610076e-01, 6.115801013936847039e-03, 3.710324290704632988e-01, 1.052576741236831981e-01, 3.807061952007265160e-01, 1.706856782109374970e-01, 6.422909263887279785e-01, 7.417429453735594480e-01, 1.321251041036385354e-01, 2.046538229565761646e-01, 3.834432685586481315e-01, 8.797926558853392809e-01, 7.708297560273938975e-01, 2.360382432749388304e-01, 2.659158461299479526e-01, 1.742671886413987015e-01, 8.384107264729159237e-01, 3.578145317881725185e-01, 2.647233127349041260e-01, 3.651593897495877261e-01, 9.328526382173499831e-01, 1.235498816262609462e-01, 1.112823845662136955e-02, 2.206824941986163802e-01, 2.296697729558906109e-01, 3.400040505870564611e-01, 2.570711235726867439e-01, 9.541123794323614904e-01, 9.513549696641386832e-01, 8.121563583067679115e-01, 1.606851042166677901e-01, 9.317720741608744861e-01, 7.392175247912055047e-01, 2.958824214137807940e-01, 4.572665982421955100e-01, 4.691388728962319621e-01, 7.996208129078204996e-01, 9.980580963832244024e-01, 6.732330754979430898e-01, 3.764113249118785087e-01, 8.040628262288402883e-01, 4.102883367844789575e-01, 6.497571637173676917e-02, 6.530266347761115586e-01, 6.595302328431902339e-01, 8.980964993850386602e-01, 8.792035361629947365e-01, 8.245813474312146951e-01, 1.687392142016236329e-01, 2.287037111647980958e-01, 5.779434451912575099e-01, 9.745884098239735449e-01, 8.234709920316370946e-01, 2.417173818670350083e-01, 6.104225777494164396e-01, 6.530810531868043167e-01, 7.784271884908242622e-01, 7.605349781683931054e-01, 7.716459067706484820e-01, 9.915982422692908305e-01, 9.905364443871085278e-01, 8.516168608807406226e-01, 7.241771402199321805e-01, 7.592095434920408115e-02, 1.806048643375848528e-01, 4.693174353896428230e-01, 6.774298603355537463e-01, 4.097052975455390822e-01, 4.555394225025485161e-02, 5.324585122272262883e-01, 1.067070994018648189e-01, 8.461233814284883914e-02, 1.169983790994506279e-01, 3.669634111685536326e-01, 7.784730147028274816e-01, 5.141619459804084302e-01, 8.905373634589113241e-01, 3.837384938477242935e-01, 6.137338584865780211e-01, 1.728453624871710004e-01, 4.288402819792164200e-01, 5.341396405260987468e-01, 1.535622215406205471e-01, 1.701943935169863698e-01, 2.981903736188983300e-01, 5.632017438470190429e-01, 8.859786688908236618e-01, 3.515857877798628794e-01, 4.486101769476787821e-02, 1.875013033008595190e-02, 7.123771625935797491e-01, 1.413768709366161891e-01, 2.179166215864686007e-01, 2.049560500645167538e-01, 6.374630619441906676e-01, 6.687528922829031330e-01, 2.044945954446883776e-02, 9.194550248526653924e-01, 1.133402935574616965e-01, 6.551886653421647999e-01, 7.258959515781049365e-01, 5.649134491261968982e-01, 7.610933356772574543e-01, 8.915472723135279276e-01, 9.684577715181478252e-01, 4.688263310993968092e-01, 3.036450892898994169e-01, 5.977020362381985086e-01, 7.903810855856377438e-02, 5.390349413811572621e-01, 4.824553779097566775e-01, 9.872489764445653293e-01, 6.854330713312427603e-01, 6.739330265093826933e-01, 2.307618194882644358e-01, 8.742830243064447782e-01, 5.009620782274825102e-01, 4.829519023939151667e-01, 5.692282457924308092e-01, 6.833107308307326822e-01, 3.049437052657256175e-01, 4.436524366916326234e-01, 5.785224613979683683e-01, 3.050111127285932144e-01, 2.575971224193719378e-01, 7.852209828195887420e-01, 9.208843066417133905e-01, 4.167673188345784041e-01, 8.204258867515590303e-01, 9.600328594376592584e-01, 3.622616555954887296e-01, 9.732972923638669727e-01, 6.477844761845913402e-01, 3.366446664573075620e-01, 1.288250442767651521e-02, 5.410080138738472266e-01, 8.290149433669220524e-01, 3.456200241251505823e-01, 1.652751498081864168e-02, 3.857612918500813448e-01, 9.875492219579735664e-01, 1.830192745705251922e-01, 2.847103131331580328e-01, 5.398056772483131871e-01, 2.372502198893722269e-01, 8.543928536597433787e-01, 3.250158875231415334e-02, 1.896382381205733991e-01, 9.313045676879841972e-01, 1.710005534792244930e-01, 1.321666142617995976e-01, 5.786152513699684974e-01, 5.920866500136724442e-01, 9.411373859327050173e-01, 8.595654113800682561e-01, 4.229311779608363464e-01, 1.660517218366718561e-01, 2.657808811857231834e-01, 6.947435084246134096e-01, 8.829137442434879801e-02, 3.494925196544623192e-01, 6.860614885531818308e-01, 5.456367500226051437e-01, 4.139793148926396715e-01, 8.799274407052092295e-01, 6.894781720892819710e-01, 3.020144488601362864e-01, 4.206460436453917651e-01, 7.548719661632524724e-01, 7.774453399410181653e-01, 6.191743929693130921e-01, 4.902485693410753020e-01, 3.958530071547066709e-01, 4.695584507652845324e-02, 9.007418243320784723e-02, 9.124735540239232723e-01, 7.438022179495417108e-01, 4.772458295660525485e-01, 6.844188683682504715e-02, 8.078503644948713536e-01, 5.424022556083002433e-01, 2.828990218673539392e-01, 9.432803318529874304e-01, 7.455682707859636604e-01, 5.169999299684552296e-01, 8.660020281486996430e-01, 9.719332586401906449e-01, 2.040374801677992678e-01, 8.444004637215367648e-01, 4.095276518743279914e-01, 7.273777380307530072e-01, 7.959244181739560942e-01, 3.832408717617569183e-01, 7.372331459652610164e-01, 7.042481320088628260e-01, 4.341455878276159197e-01, 7.461645837480603005e-02, 8.048147243103598303e-01, 3.451745618240673052e-01, 7.126146840042064667e-01, 7.044292161015202058e-01, 7.937346523802913945e-01, 2.137518066387222027e-01, 5.941794090840176734e-01, 2.152606581622236448e-01, 6.954289224929844915e-01, 1.005424317023823205e-01, 9.860084574101314336e-01, 4.881969941145736791e-01, 8.457876080690219789e-01, 4.519443534937715029e-02, 1.376235292649334585e-01, 6.203715830817410071e-01, 5.892120938401232966e-01, 9.896182556252456353e-01, 7.572941018003233049e-01, 2.626188230981347793e-01, 3.702720467773740198e-01, 5.778717439146763279e-01, 9.509492201094191799e-01, 4.367452127441786569e-01, 2.256646531995188665e-01, 1.164301660774539867e-03, 7.359489619299841578e-02, 9.175011804816030070e-02, 8.248606155557249853e-01, 5.439389136818821857e-01, 6.818375873128097453e-01, 1.832726115193568928e-01, 1.107037688542894666e-01, 6.952184971580955830e-01, 9.164957315664293835e-01, 6.234042155779959682e-01, 2.383716751542912515e-01, 7.308629065317069351e-01, 6.518980325176280122e-01, 8.201196042920652074e-01, 4.706039545768601062e-01, 3.182436518274163184e-01, 1.488341815612750640e-01, 2.761358701743555910e-01, 7.130273548846844944e-01, 8.358739191755595321e-01, 2.929471922916979110e-01, 5.300724374937690886e-01, 4.542522771825558969e-01, 9.658600647634004721e-01, 9.342698516640035589e-01, 7.807482471828027792e-01, 1.828322059908576158e-01, 3.762176105452769703e-01, 7.145253061958968532e-02, 6.879036483597286145e-01, 2.097754705811477327e-01, 3.843375164173196690e-01, 3.455943415173284849e-02, 6.073619064829393066e-01, 8.993335787583724983e-01, 4.903282000861539092e-01, 4.957794635450256671e-01, 7.146809769222021158e-01, 4.639379679931995293e-01, 8.773553172554626745e-01, 2.560701741141626631e-01, 7.201119866316892937e-01, 7.131930404022807091e-01, 3.906748560600548092e-01, 7.070915111975002443e-01, 3.816147549462565736e-01, 7.574804579621874367e-01, 2.263087326549464706e-01, 8.628253453139892448e-01, 7.543409156261153825e-01, 2.943903624190491453e-01, 5.967873827717674606e-01, 5.641216752180219229e-01, 7.118531639184516591e-01, 4.064213669213522229e-01, 1.041986026530132420e-01, 5.267750198818057505e-01, 4.102304040175897004e-02, 8.193280807840997992e-01, 5.937375256476215557e-02, 4.348927775613890545e-01, 5.510982653473947002e-01, 9.962697912870761563e-01, 6.825380714515537350e-02, 8.579991870335240689e-01, 4.040397756171643651e-01, 3.831423410017084086e-01, 4.591175835337164557e-01, 3.716189835418728937e-01, 1.394275534609431821e-01, 4.816743810734001596e-01, 7.259993251553314986e-01, 3.050672694735167001e-01, 7.157463217890553953e-01, 5.261561495152233814e-01, 3.954186297418296747e-02, 5.755197607026126816e-01, 3.970470573939311465e-01, 3.956465019373916481e-01, 8.076207728740850689e-01, 8.243907162827740498e-01, 4.942662564952666759e-01, 1.884854009345772741e-01, 3.921981360521268820e-03, 7.353765694233458383e-01, 6.862263937512093070e-01, 6.107252780798511083e-02, 4.963542009506159980e-01, 5.892117627393388402e-01, 5.951027183013876121e-01, 2.718438993411659843e-01, 3.256387817310892885e-01, 3.324871259319985284e-01, 4.772173939086895578e-01, 5.279126233498430132e-01, 7.114234657850999621e-01, 7.613826224314705904e-01, 4.146101062215959976e-01, 6.509024912883467628e-01, 9.284639458309938975e-01, 6.926514878721830026e-01, 1.192575343489799267e-01, 7.660361442424822309e-01, 6.264088716011488867e-01, 6.281768668932607991e-01, 6.362944284607967571e-01, 1.281925765943434936e-01, 7.719633461104755678e-01, 1.105048672132792342e-01, 1.081613875100073847e-02, 7.161438472660562882e-01, 8.806040766452369883e-01, 3.782672607881684690e-02, 3.065731197086249971e-01, 6.832933394044360398e-02, 9.627343310454666847e-01, 7.867085489670658793e-01, 3.546096776870082401e-01, 2.174291755461384978e-01, 8.420070004995439117e-01, 7.725065219153560703e-01, 3.747732107625957321e-01, 1.003057582918967239e-01, 6.613369478704077542e-01, 2.987758946728572562e-01, 5.396538308899222480e-01, 6.193342366548860722e-01, 1.493929378279093279e-01, 6.860591921550537875e-02, 5.845917495333122771e-01, 6.272462380451954145e-01, 8.007465754653281254e-01, 1.909482806940742960e-01, 1.070654116369514491e-01, 2.373970186625829759e-01, 1.848139337570613716e-01, 6.062083416161935245e-01, 1.583095864665861330e-01, 9.486868140228567059e-01, 7.236067493592783784e-01, 5.754789147999441745e-01, 4.157948086281484934e-01, 8.982960973062453780e-02, 1.482551036312742820e-01, 1.306625642200219539e-01, 4.227865561646598769e-01, 5.118744134871651141e-01, 3.191669063627480818e-01, 1.072394964784607017e-02, 3.841548277739531003e-01, 8.839161213584674215e-01, 3.577622473490545962e-01, 2.971982323429671613e-01, 9.237851189194711266e-01, 9.995457594905217125e-01, 4.547442560725064586e-01, 1.561928960644759778e-01, 8.222722375684827778e-01, 4.483766739551334202e-01, 4.692265069625267682e-01, 7.203998528390378464e-01, 4.504469879618438477e-01, 1.289253826696026284e-01, 1.564596741591790241e-01, 9.073399250625689971e-01, 9.274148659042608100e-01, 3.150008919969661259e-01, 8.308450351110645560e-01, 8.274022862168586290e-01, 5.396994455545156555e-01, 1.177737422406464722e-02, 4.722040501245288596e-02, 7.140510943640414609e-01, 4.961434726376877380e-02, 4.825341506484959742e-01, 9.138581459170769250e-01, 4.362042214595308054e-01, 4.583923025599014739e-02, 3.176697918294684730e-01, 5.573515432291642480e-01, 6.060221974430466396e-01, 2.880178390512232872e-02, 8.646236108232833173e-01, 3.860982661920848713e-01, 9.294963901434977194e-01, 3.272285610934574929e-01, 6.117131755609898081e-01, 4.622101297636321271e-01, 8.640271616622465789e-01, 8.043831048167195963e-01, 6.759567021416432731e-01, 8.996249907656483913e-01, 2.440472466549228545e-02, 6.758972416247354120e-01, 5.155175876149077629e-02, 7.779227930253911349e-01, 8.331525760925874158e-01, 9.261199955184987731e-01, 1.634509472002187297e-02, 5.571288971292017722e-01, 9.306518149384682137e-02, 6.890664208327635931e-01, 5.391887504153760613e-01, 3.533342015875383102e-01, 2.259321302407666654e-01, 1.886015485922330204e-01, 5.780276142208966572e-01, 2.948852139566878194e-01, 9.302153916255977428e-01, 6.142063489897831019e-01, 9.799379078444628854e-01, 1.679842400916592149e-01, 9.004590397680904967e-01, 2.182939162936613775e-01, 2.929550092465096726e-03, 1.809357406316280947e-01, 4.842704849704929648e-01, 8.723691981850980603e-01, 8.890782417946123672e-01, 9.314701016356097263e-02, 5.308678835881632807e-01, 9.519793546973684961e-01, 9.721302512985333655e-01, 8.043229725834534494e-02, 2.151969261597965200e-01, 6.021478123099770485e-01, 9.442350461272150941e-01, 2.422378960395107639e-01, 9.694576051037840925e-01, 4.543444782067372345e-01, 4.642773667172550023e-01, 6.855690261724450840e-01, 9.325244135878029139e-01, 4.084501315042583639e-04, 5.953696599372464426e-01, 1.762222399423253594e-02, 4.033004862166922333e-01, 6.933993510415255024e-01, 1.493243213345766263e-01, 2.324214313991831704e-01, 3.686297721190583410e-01, 7.058043970549330304e-01, 3.027505970719460149e-01, 6.471656272031319768e-01, 8.304797997198505310e-01, 8.886814538670791963e-01, 6.981892334255949129e-01, 5.736608655408256263e-01, 6.687216547469022609e-01, 9.181189050315557987e-01, 3.209008533524126405e-01, 5.421869366221687692e-01, 6.583692674332916051e-01, 3.321286113859504840e-02, 2.385811768405040889e-01, 8.767504670635882791e-01, 3.525007793403992506e-01, 4.788584583739457501e-01, 9.166368855841350305e-01, 2.925201537769540616e-01, 3.232685520871304008e-01, 8.121908688487566863e-01, 2.971346910319368484e-01, 1.143285624552346780e-01, 4.760056400504867474e-02, 5.378941739125981530e-02, 2.154529481200561369e-01, 6.147018191022537437e-01, 2.874374511428143264e-01, 3.038830198972198790e-02, 8.028372676139100550e-01, 2.166719259008674514e-01, 6.282869959312341324e-02, 9.397247497626113333e-01, 9.800808625330794666e-01, 6.211190790885757762e-01, 8.462684271474122388e-01, 1.843675856553558257e-01, 8.154730454561565089e-01, 3.862117007750876518e-01, 5.868465771703316181e-01, 3.373745580605037181e-02, 2.523142347090748805e-01, 6.232279580824980902e-01, 2.849564840547078592e-01, 6.698812385075167963e-01, 1.907451217351364414e-01, 3.432856934150163020e-01, 3.842401561590023662e-01, 1.804282370387402246e-01, 5.716326567834342232e-01, 6.410593648882064732e-01, 7.507579831509154644e-01, 6.300871894480068736e-02, 3.698456357207284273e-01, 4.997878487947022275e-01, 3.827572643457519130e-01, 1.091017448752834573e-01, 7.804550266861134400e-01, 8.512405833452934001e-01, 7.153812365931470074e-01, 4.088643650373271488e-01, 4.871725995414889487e-01, 7.659927659047017778e-01, 3.941051865358418116e-01, 2.843211225616635862e-01, 4.269962292362851075e-01, 5.815458432961497781e-01, 5.198414982213894753e-02, 4.320792418483808683e-01, 6.645414495187695891e-01, 5.930850191096280755e-01, 8.277298517102762432e-01, 6.236348511125405780e-01, 4.320653021493595647e-01, 1.036583762337123654e-01, 9.779343435716393307e-01, 2.241068424747325594e-01, 4.265812241276020766e-01, 1.911130163907839574e-01, 3.036205455447690826e-01, 1.435132889931772238e-01, 6.344669816624237679e-01, 8.129965326311314744e-01, 6.429888183543363001e-01, 8.399239619752639774e-01, 3.769383104226998737e-01, 6.488880903695909419e-01, 4.217555938446688191e-01, 3.618361044210168243e-01, 6.984385218422952679e-01, 2.754506312798813417e-01, 1.755437718163708471e-01, 7.095387484840149916e-01, 4.557649523188648244e-01, 4.305955340158599265e-01, 6.090336182210277505e-01, 4.053235027390973411e-01, 3.721102092366319614e-01, 1.576497537328960530e-01, 5.721493466041620568e-01, 5.222783367677100719e-01, 9.687247789064864500e-01, 5.589464616819956877e-01, 4.178652801831899688e-01, 3.411583486957527334e-01, 9.083657935422603247e-01, 7.102106163934204242e-01, 1.478395079879019081e-01, 7.963020077728670820e-01, 1.860595372453693608e-01, 2.322125437255034286e-01, 2.622934348077765043e-01, 5.831977775179575385e-01, 9.440705047584905252e-01, 4.592261034583693391e-01, 5.332543847305856177e-01, 6.721124700469552904e-01, 9.005272229812941731e-01, 5.599553234312625305e-01, 3.135809049682520278e-01, 5.615104649566343697e-01, 5.452591330801696001e-01, 2.825090441449240042e-01, 5.492821948876652760e-01, 4.928065952338427924e-01, 8.634906243302953310e-02, 5.456262969909841942e-01, 7.432564711464770268e-02, 9.569540118504059611e-01, 4.480347750671085927e-01, 5.230320772369234650e-01, 1.257603006188066919e-01, 4.122243507087300363e-01, 9.359149257126282428e-01, 8.531424588165567036e-01, 5.313548676560844175e-01, 6.974307809787090306e-01, 8.753392627872450538e-01, 6.892024003451950875e-01, 9.681109746277385408e-01, 8.625037855215572646e-01, 8.187441140826630104e-01, 4.694845163895420281e-01, 3.921484952908096400e-01, 4.961090837007108290e-01, 6.876046867727708678e-02, 3.781008782393913692e-01, 7.984108767365891701e-01, 5.273726205458408867e-01, 1.119506826204267197e-01, 3.426113368431483175e-01, 5.300238661126523143e-02, 7.445851718296144783e-01, 6.029825929881448277e-01, 8.083962318952701009e-01, 6.045146642942149651e-01, 5.966685131207454251e-01, 5.627949084341986319e-02, 4.673428365768798609e-01, 8.750085445597513001e-01, 7.957031338803729481e-01, 3.161441171434904995e-01, 8.384076292189241997e-01, 3.838278861562929301e-01, 8.946321320320789194e-01, 2.154681073590873908e-01, 5.829820521196450445e-01, 4.546987424013387291e-01, 4.670103457256429835e-01, 1.688624578427379008e-01, 4.258919579507285391e-01, 1.887488705499322794e-01, 4.997378532192568446e-01, 4.816741288922754549e-02, 4.641550354400764689e-01, 8.082012409055715496e-01, 4.362959506928049680e-01, 8.165534247891804709e-01, 7.503930392731020804e-01, 1.190921357459272523e-01, 9.369255098348323874e-02, 5.115060123016784699e-01, 3.045399071533596569e-01, 9.936035029567419352e-01, 6.747631831724376639e-02, 5.856807402562824727e-02, 4.353707850346705821e-01, 6.878765223091592995e-01, 3.792593975468038225e-01, 2.807194396530738323e-01, 1.587162103084997777e-01, 2.053934757008737400e-01, 8.570175481553674590e-01, 9.173734524795060241e-02, 1.753197841680672886e-01, 5.852898076814090356e-01, 9.260605545542422989e-01, 7.110335615454916880e-01, 6.069224905803121128e-01, 3.929546408141413316e-01, 3.296258484225103036e-01, 8.944052688017135599e-01, 5.041845463562358853e-01, 4.932713560982871503e-01, 9.322414453752376762e-01, 5.743505721329410507e-01, 3.968577318206960025e-01, 3.394959448132259805e-01, 3.503200681444334497e-01, 1.240364411859915111e-01, 9.416739619449303322e-02, 6.129713810650794237e-01, 9.577051045984456001e-01, 7.110977860368278280e-01, 1.828838303437752277e-01, 2.832102705443277357e-01, 1.775754639167338167e-01, 3.961435187109530465e-01, 7.715416669241959013e-01, 4.758994162041579878e-01, 5.448438473352661404e-01, 1.901205938472065246e-02, 6.669999427407435899e-01, 7.112593675922519454e-01, 6.861915684169603846e-01, 3.759885964403948400e-01, 7.614220771294194501e-01, 7.787746598684935906e-01, 8.232463499220521452e-01, 5.411850993106335217e-01, 9.333195074355360443e-01, 4.371467097347538355e-01, 6.477283827641093783e-01, 8.682558989671163019e-01, 9.689406653342250708e-01, 1.612785023272962914e-01, 1.801458024899828259e-01, 2.325582860901854176e-01, 8.950161558870856071e-01, 4.003743304784921908e-01, 2.505528389908223130e-01, 1.218109392423104009e-01, 2.425335054836073034e-01, 8.183070222005838223e-01, 3.012660362948115910e-03, 3.413971979600208262e-01, 5.317042788389123587e-01, 5.672880326315838939e-01, 1.228536232826310248e-01, 3.884486817861331764e-01, 6.013656471985878715e-01, 4.701032326064758515e-01, 6.100475382503509625e-01, 7.830873853046265154e-01, 9.803057994977446010e-02, 5.730002639131768216e-01, 1.154718325547262198e-01, 9.819616150533266863e-01, 1.577393326375723936e-01, 6.678367889653419320e-01, 5.593217522901181571e-01, 8.357437777401476309e-01, 8.976676118255207948e-01, 4.332999045623719958e-01, 7.927226917574340392e-01, 7.558712614817001407e-01, 3.262893459384061945e-01, 8.860660558370830886e-01, 2.134680931491201583e-01, 1.659283600167560102e-01, 6.500751544874334709e-01, 9.060556151004262038e-01, 1.718997844187898291e-02, 8.720555264440583709e-01, 5.646896276968431660e-01, 8.905089321525840873e-01, 5.046478300852154097e-01, 1.662253616523293870e-02, 2.996949669796243332e-01, 2.072814193575816533e-01, 5.364967962443045746e-01, 5.684347701426497590e-01, 9.667590112026995808e-01, 7.059065239439260564e-01, 7.483469108430291783e-01, 1.156626387397564765e-01, 3.330426410354561662e-01, 7.036339179173561886e-01, 6.859825232726035615e-01, 5.201056266354736612e-02, 8.245111734783221458e-01, 9.345039794974955294e-01, 7.759624130600952796e-01, 7.565201120283844283e-01, 3.645961057118443649e-01, 1.763354297540001281e-01, 3.475832362459147507e-01, 5.648391949862742178e-01, 6.770822698651773885e-01, 2.213800717259629680e-01, 7.081044282353922137e-01, 3.137573545754879234e-02, 8.504748391259958629e-01, 3.828622334307104635e-01, 5.742602217498653516e-01, 6.838544587100169325e-01, 8.626918968624980311e-01, 2.090752485160272400e-01, 4.290364019202395213e-02, 6.665065055568645258e-01, 9.618382669952473263e-01, 2.309981826725224507e-01, 1.465062263038292151e-02, 8.778704401733787854e-01, 5.714656689201125239e-02, 7.504224935543851727e-01, 2.757033293798901580e-02, 4.187001216245141988e-01, 6.260392405627051016e-01, 7.169003508906508504e-01, 4.868059948409938498e-01, 7.124368818887524268e-01, 9.697434494187310294e-01, 7.242681247219663332e-01, 3.133820508027254648e-02, 1.123579733946139525e-01, 3.505409258541118955e-01, 4.680571595319282796e-01, 3.645444847361457574e-01, 3.294593195280147158e-01, 2.244928613664284867e-01, 8.963461765535978287e-01, 5.040635090991644196e-01, 7.608853651781325445e-01, 7.871592299937709702e-01, 7.051012451391157343e-02, 4.882414794690240201e-01, 6.459899706216051252e-01, 9.436907324991683499e-01, 3.350043777286428326e-01, 1.240992143542000437e-01, 1.465058152026657290e-01, 7.235669493582966849e-01, 2.160486477241601588e-01, 5.725094540594500847e-01, 5.248372154029214975e-01, 7.717292357162084393e-01, 4.735114717098005688e-01, 2.241857834121900594e-01, 1.263027585839577305e-01, 6.264503127253603365e-01, 6.395801417280396750e-01, 8.826505844705241632e-02, 9.364678508988575345e-01, 2.379455831657943388e-01, 9.170548731545311583e-01, 9.651824085283503551e-01, 2.821618765499784298e-01, 4.530827041940183042e-01, 6.337029711467697668e-01, 7.461714556896741346e-01, 8.183875119629171468e-01, 2.919247627540298429e-01, 3.461695939193735194e-01, 7.139414033428511663e-01, 9.366198082516177248e-01, 5.334146814673228487e-01, 9.754687109395346889e-01, 9.801025616702149224e-01, 3.567310087749211989e-01, 5.000680255347459413e-01, 1.318678982297364077e-01, 1.037345319362711384e-02, 1.353360469720695514e-01, 9.503242331874155457e-01, 1.077365919997780863e-01, 3.920698376835388688e-01, 4.387631868396834611e-01, 2.030300604857077917e-01, 2.452645684856547548e-01, 9.160786106503597814e-01, 1.806207060887791704e-01, 6.253313730731209219e-01, 5.794695904314612900e-01, 2.705052163175597491e-01, 1.078306790934792231e-01, 3.451491316516959729e-01, 7.744000938869991524e-01, 8.265684559055829217e-01, 6.810968273143371832e-01, 1.223257251562421405e-01, 7.848517721324178853e-02, 3.781939868022885648e-02, 2.765497922710458689e-01, 2.587020376927838816e-01, 4.522176553436942775e-02, 9.136898220508471447e-01, 1.446640483583392332e-02, 6.321927096071479069e-01, 2.968745725058152818e-01, 7.304688104547791584e-03, 3.833363830477715672e-01, 4.450069637961678870e-01, 3.886205220879668243e-01, 9.046091276521871505e-01, 4.612035933602334770e-01, 1.845415041500436393e-01, 4.677219598395969680e-01, 1.148632975173556475e-01, 3.453537999009940185e-01, 3.882507758651806418e-01, 1.828194912935517669e-01, 1.901026872280323424e-02, 2.050148470474430773e-01, 8.486432745927112720e-01, 7.022712278409320996e-01, 5.586482627502924458e-01, 2.598385397361456794e-01, 1.677091351516017959e-01, 5.450446066781001742e-01, 4.690562465109717610e-02, 2.423987885102142359e-01, 2.614556207105011021e-01, 6.741346040975282339e-01, 6.792334422440365893e-01, 6.242550816472942632e-01, 8.508656181159455212e-01, 5.324203910996669897e-01, 7.012724435301169734e-01, 1.420564998902691944e-01, 9.741072192923154738e-01, 3.202704105310241744e-01, 8.145776866515754000e-02, 5.711245076949760247e-01, 6.559270587205378034e-01, 6.839665181058531829e-01, 2.042603442370668210e-01, 7.587857703092680817e-01, 8.438749928156595859e-01, 6.883089876006630581e-01, 9.069845033501972020e-01, 7.522857493036663179e-01, 9.865723941827726495e-01, 2.758405787655901498e-01, 3.095419587158302899e-01, 3.745032360374320191e-01, 5.783408865319987768e-01, 9.546521892614302507e-01, 8.353787176001705728e-01, 1.803792253287505587e-01, 4.437431996225124076e-01, 8.445992701207210018e-01, 9.333219538955646044e-01, 8.572255052019626953e-02, 8.870453391886347072e-01, 9.822721465293045295e-02, 6.830949971485186234e-01, 7.222881310406740196e-01, 4.978253151945866706e-01, 2.264562665219380933e-01, 4.710016007769654567e-01, 5.188979831215172894e-02, 5.991171438484739209e-01, 8.345230973329313962e-01, 5.345949602784090260e-01, 3.673552061980963623e-01, 3.583918256408493708e-01, 2.851024626336717827e-01, 2.695069811362135748e-01, 5.885130609899515974e-01, 9.710635556520567091e-01, 5.759241334092150000e-01, 3.228118256102792683e-01, 3.756386653970062578e-02, 2.045536795441258437e-01, 9.160818747227559289e-01, 9.282192829762831998e-01, 1.008954732489484030e-01, 2.917917605589084307e-01, 1.056100781833870794e-01, 3.586774593260789179e-01, 7.728021392711260651e-01, 3.432826266573309471e-01, 8.051490951421472753e-01, 8.270906041420371668e-01, 4.262761761411591466e-01, 7.499075864630215804e-01, 7.365806455249087614e-01, 1.859542529585463955e-01, 5.269802608824813994e-01, 8.205375031050704537e-01, 5.381482508128235809e-01, 8.463714905509217568e-01, 7.007189146888345155e-01, 2.675862852423118929e-02, 6.399793914474716239e-01, 6.143545422177747461e-01, 4.407695231302632410e-01, 6.322443986706932639e-01, 3.410586337893803943e-01, 6.346188678298098074e-01, 8.116184404384195750e-01, 3.072068797178253985e-01, 1.125090804019663882e-01, 3.800385162217922996e-01, 4.034484668965993004e-01, 3.391850443765233591e-01, 9.242672596034785526e-01, 2.411517190097937635e-01, 3.969809477337398751e-01, 8.477221062538538021e-01, 4.254793121744303575e-01, 8.647824083490016633e-01, 9.585724186262881696e-01, 2.337700415908515739e-01, 7.767137332710334352e-01, 2.130640332989790497e-01, 1.813690711967113900e-01, 9.749830439726144826e-01, 3.773186422700849363e-01, 2.478791624964425955e-01, 8.784875057669909726e-01, 6.950101179929725204e-01, 6.144417997399445053e-01, 4.393640034383622939e-01, 2.876671718109696241e-01, 9.151765857385938396e-01, 2.465601540714487394e-01, 8.350320145131786553e-01, 5.218871066601714626e-01, 9.613342000190960857e-01, 5.224156059321320988e-01, 9.788357884391833963e-01, 4.797654381157531178e-01, 1.289006759960817650e-01, 5.399641117189535322e-01, 5.628450028448784836e-01, 7.356775518667747482e-01, 9.998495394815842818e-01, 9.706115995147827080e-01, 4.382762775926664078e-01, 2.354591474452534250e-01, 3.575582583577784912e-01, 4.260335692435927024e-01, 3.674881248145706603e-01, 4.572682320512348048e-02, 5.609378390611526877e-01, 9.904988717140900123e-01, 4.957923530610113816e-01, 6.565248036730675363e-01, 6.694282471995010031e-01, 4.839658566179318999e-01, 3.073237525988204433e-01, 8.957949348102396681e-02, 2.501202786907092412e-01, 7.636449076549263193e-01, 4.902999640056144304e-01, 8.679168542299156019e-01, 6.718163448076808208e-01, 1.007785481171695890e-01, 4.181855907828737617e-01, 5.375943447743810610e-01, 5.090655569547781756e-01, 2.277339529711399357e-01, 1.557150280340594273e-01, 1.641511199595917792e-01, 4.372388443721176854e-01, 9.383057035643467270e-01, 8.895705295953397762e-01, 8.124538324554750335e-02, 3.658585524259385102e-01, 2.040656903447220505e-01, 2.604346922619601643e-02, 5.174396863936629037e-02, 9.373510662978284946e-01, 5.843987656535137853e-01, 9.788155594788899849e-01, 8.711204866790013268e-01, 5.592311748890771428e-01, 5.433170233731650089e-01, 4.895943126276459112e-01, 5.957183435807199556e-01, 7.532423003712379606e-01, 4.950234160515216142e-01, 7.937838551498103135e-01, 3.799959371676696063e-01, 9.325207281031900886e-01, 1.060694575807127199e-01, 9.251322908128633005e-01, 6.745325987831448655e-01, 3.006993733026583349e-01, 6.896496491957372355e-01, 2.984948697630511738e-01, 5.021618520167163702e-01, 3.681983150398516758e-01, 6.996501557487284917e-02, 1.199854177112773951e-02, 4.734248145338136315e-01, 3.286873264532766403e-01, 1.693128731263288111e-01, 4.132056906984745148e-01, 1.408752946058854372e-01, 6.303739736630177282e-01, 6.693296602209970469e-01, 7.791525951921803861e-01, 2.923508757915923018e-01, 1.168726703312551463e-01, 9.903834089208626845e-03, 9.217610222778263029e-01, 6.747210622511916611e-01, 9.122494449985519838e-01, 2.623464885293526061e-01, 6.636519738833954740e-01, 5.709800321947338109e-01, 4.060733379188055658e-01, 5.712695080534849756e-01, 8.566015531654008752e-01, 9.150387711394756263e-01, 2.421479542784057970e-01, 3.034465884830114812e-01, 8.313680654224880895e-01, 2.724428944488306303e-01, 4.693523234629455587e-02, 8.911798789278707611e-01, 1.052833920621156771e-01, 2.313289429452191903e-01, 5.349557603491869040e-01, 4.137275617756238089e-01, 8.932305397357025445e-01, 8.483787206492272581e-01, 4.117271433985746354e-01, 1.001060561974658897e-01, 7.898312594329035541e-01, 7.884614917528702804e-01, 6.598090658412467668e-01, 5.196394722165674773e-01, 1.944905115608655255e-01, 1.225351735105767170e-01, 7.053548946781265649e-02, 8.499648853959119732e-01, 7.404530707422780633e-01, 2.947311806781007792e-01, 8.525992305970598872e-01, 7.330736229540346649e-02, 2.089689766759051659e-01, 5.384720378228906590e-01, 3.279476133390994974e-01, 3.525536828309040471e-01, 6.522672692826090302e-01, 5.052500834439778155e-01, 9.211617078546454618e-01, 3.868115938168251514e-03, 1.998711769349585943e-01, 5.079904570804175679e-01, 5.554066248542083306e-01, 5.197512798396919376e-01, 5.234415672545982279e-01, 9.577757097045439538e-01, 6.006322691741041719e-01, 9.063272274360856251e-01, 6.777511985623435598e-01, 7.885281425728246640e-02, 7.465087442685710561e-01, 7.007277839558806454e-01, 5.273586989676324333e-01, 8.086137213139508173e-01, 6.287047529720366512e-01, 2.337386710128740441e-01, 3.322586207962439087e-01, 2.965525422021825230e-01, 7.296385358396434428e-01, 3.593831267247094008e-01, 6.926114438776733717e-01, 8.761062164685337050e-01, 7.846529967600088806e-01, 2.615068765143555574e-01, 8.537126091315841991e-01, 8.626421624699652790e-01, 1.054727220561028633e-01, 8.451945154176764285e-01, 8.838365154955346581e-01, 1.525744062840577175e-01, 5.726442323050402461e-01, 5.242919170079443081e-01, 8.706493954550341696e-01, 1.420968191883436316e-01, 1.041162338292776768e-01, 2.071962203399716207e-01, 3.702998298131527366e-01, 9.481035874324713619e-01, 9.081520112814964185e-02, 6.444564188516439529e-01, 1.911092663995031249e-01, 1.724532778829004631e-01, 9.066659218536686493e-02, 7.111149468318989086e-01, 3.582513401101778405e-01, 5.575608427872495720e-02, 5.222482234153279501e-01, 3.250166007755357911e-01, 4.115477011870298796e-01, 5.316589775424811898e-02, 1.755821371841406187e-01, 9.554587110376487891e-01, 5.722205183935262784e-01, 7.348692399230261074e-01, 5.546909882215566023e-01, 1.942547968017706295e-02, 5.997999836287438713e-01, 1.880839997088998572e-01, 5.891606886221941730e-01, 7.460409895652131418e-01, 4.743917914144692993e-01, 2.678695783386990659e-01, 9.205668464789168448e-01, 9.543508829857582088e-01, 4.649914658248782695e-01, 7.759191741990433266e-01, 1.907467894886696880e-01, 3.403569811468562523e-01, 8.532971369709508869e-01, 2.789271231435722087e-01, 1.618867099578510937e-02, 8.752609536127859968e-01, 5.229413597561466398e-02, 1.917662804444204283e-01, 4.190587904572080080e-01, 4.100540604983567428e-01, 4.986927327893840300e-01, 6.195782240933773721e-01, 2.387308052604606989e-01, 9.190750857112556238e-01, 3.369746321699330222e-02, 3.101303133894148245e-01, 7.257382701661866352e-03, 7.087917914410567510e-01, 3.423974106927141769e-01, 6.421339723588211923e-01, 5.887497840756797940e-01, 4.504657602376163084e-01, 8.772019935705535065e-01, 8.948983046644840011e-02, 5.386484460308965661e-01, 6.282745480720660636e-01, 1.571361732855673654e-01, 7.790713738846832825e-01, 8.330917881784277723e-01, 8.603994279071396356e-01, 5.657346852288130945e-01, 3.254518059310733125e-01, 6.222131233189316379e-01, 1.801979127082869725e-01, 4.553327551398756445e-01, 8.893938570777296659e-01, 5.747708752234880203e-01, 5.451296297782068923e-01, 3.474042793588626998e-01, 1.685332022680613787e-02, 3.247626088070830752e-01, 6.390721802836674126e-01, 5.168341300753408474e-01, 4.890320718107646347e-01, 1.972406482463048005e-01, 9.174640510678071514e-01, 2.097458551433452612e-01, 2.546217823582746509e-01, 7.464345710240836151e-01, 4.223108509572026659e-02, 6.123552793239437353e-01, 4.180594985551902010e-01, 2.344276607661885670e-01, 3.777672941617538083e-01, 4.561510575201745410e-01, 9.554809985308039266e-01, 5.217231678309067755e-01, 5.433127324722935025e-01, 3.012199344441369164e-01, 2.520939058259642485e-01, 3.605108461032189293e-01, 4.594557264262887353e-01, 4.723217729781107876e-01, 7.055185459994193220e-01, 6.691059209027160337e-01, 4.284470135507526534e-01, 9.819723482236902834e-01, 4.494081383039298383e-01, 5.303023774713149230e-01, 4.141734986482825676e-01, 3.400488073169096737e-01, 3.967873267782821012e-01, 4.923244256293779486e-01, 9.442364361379612658e-01, 9.978915119649258703e-01, 1.298811234135176795e-01, 2.311307575328305219e-01, 7.712870743000092011e-01, 4.009701204056057566e-01, 5.351531658555740423e-01, 8.780869584699654284e-01, 8.297097163838798028e-01, 7.464217486152693315e-01, 1.942121494769461498e-01, 3.298872181444335583e-01, 9.307428745486736599e-01, 6.361861147421786766e-01, 4.685770369766788512e-01, 7.935972210917485725e-01, 5.649810294388736276e-01, 3.018821062417620382e-01, 7.948308084348579827e-01, 2.133330790148570411e-01, 1.369723356284075211e-01, 5.122452953722804458e-02, 8.499119577527778358e-01, 2.329723217395809343e-01, 6.023531110764165364e-01, 8.145425391706786478e-01, 9.411043148700575234e-01, 6.604022657047532441e-01, 4.788828346535147773e-01, 1.739658867707905357e-02, 8.083055586853893359e-01, 6.155258311652697101e-01, 7.197966181123296447e-01, 1.154595349507464563e-01, 6.267316986243512966e-01, 2.830030494033351496e-01, 5.833462510534873635e-01, 8.617560170168813150e-01, 1.067287481351914397e-01, 3.247461493173716685e-01, 1.905229595899893269e-03, 8.754520171447047749e-01, 3.922143779957733556e-01, 9.339229938247020080e-01, 9.908920278132983261e-01, 5.466891541597070775e-02, 1.150090874784857747e-01, 7.245675514656039207e-01, 3.584398741794439514e-01, 6.241332080907970870e-01, 3.958793154634300260e-01, 3.428367653697717010e-01, 5.666072827313481941e-01, 6.670458429535113254e-01, 1.283922217100860394e-02, 7.102575257967190803e-01, 6.384468613199602016e-01, 9.290253851457065393e-01, 9.889397199948921635e-01, 7.781961670368211514e-01, 4.465454202166687647e-01, 8.733423675134323050e-01, 3.384313909637399198e-01, 3.515981040263584934e-01, 5.898422491928844158e-01, 5.593442884952229965e-01, 2.605317573208900672e-01, 4.181245947745552138e-01, 4.834677547166801315e-01, 6.256745881702393541e-01, 6.662386241328316361e-02, 3.872338128524499545e-01, 2.081974897789420076e-01, 5.709360133642795709e-01, 7.849916147325322058e-01, 7.848172158282117339e-01, 9.952213481733305223e-01, 4.614748439704450811e-01, 2.179868282806911584e-01, 1.576802512063397443e-01, 5.363497600968810536e-02, 1.402186481664935425e-01, 8.415971719720814759e-02, 3.854505044229480926e-01, 5.497311992150384352e-01, 9.502610548475465269e-01, 7.081535574204821104e-02, 5.979032894515960983e-01, 7.715051422720731189e-02, 7.667559448988335883e-04, 7.604912055122028391e-01, 9.503190271208504791e-01, 6.224165253291233935e-01, 6.291524493937035167e-01, 7.319419230259069931e-01, 8.837312084349185914e-01, 3.830630089329275512e-01, 7.800235191983005689e-02, 9.568883598837093496e-01, 5.138213437727384703e-01, 7.706449625592094455e-01, 5.181133225445984092e-01, 6.472017180045671614e-01, 7.747277487152282038e-01, 4.545557487197355306e-01, 4.708779307794239144e-02, 7.490624004380487255e-01, 7.538599605662880121e-01, 5.583770413583407644e-01, 3.038457698247113425e-01, 8.041095395454666006e-01, 3.424803900805932777e-01, 4.013594365276756948e-01, 4.189003013270021780e-01, 9.491609400234120031e-01, 6.865758942881793336e-01, 8.077726020732188816e-01, 3.383196319379559447e-01, 9.907835846442542005e-02, 8.663623989177327012e-01, 2.182288071686530606e-01, 5.817964426017060431e-01, 5.442646802860973132e-01, 2.779701490467080816e-01, 7.374162744836685324e-01, 7.336399464077016930e-01, 5.762730670063834909e-03, 8.564127308577774711e-01, 9.184195776312229498e-01, 6.902137390155727026e-02, 5.953046808936482970e-01, 1.083214319196683937e-03, 7.665234487710070876e-01, 5.679106371245146168e-01, 7.875747016059337913e-01, 3.419451681583252634e-01, 8.116033410324510408e-03, 8.040467571698884930e-01, 6.129638577352004569e-01, 2.963630730910287239e-02, 4.494680728934632996e-01, 6.067525102661948111e-01, 8.929646802993681520e-01, 3.926489505591392870e-01, 4.380163923125916514e-01, 4.042792181136097840e-01, 9.666066902449081955e-01, 2.399502573091395058e-02, 6.387372367329033906e-01, 1.606532962871928538e-01, 5.481167939898942132e-01, 6.651473589132015363e-01, 3.512778350253968340e-01, 8.581697856920528222e-01, 3.991164348426745057e-01, 7.635392878371836112e-01, 1.477401143274940654e-01, 5.797364563479219246e-01, 1.053413076331928128e-01, 2.820326977516430800e-01, 7.414991728061877119e-01, 4.383794096868998680e-01, 6.377192713473313068e-01, 1.835150126497338552e-01, 4.584084268403766371e-01, 6.355360535550532708e-01, 5.056919118223230925e-01, 2.086337799619494837e-01, 3.441408473114972444e-01, 1.830476631291528822e-01, 6.624760885427862789e-01, 1.147323514135529382e-01, 2.968269261329363196e-01, 2.959251092272205952e-01, 7.051142688415531490e-01, 1.944296524879758625e-01, 1.201639541991211119e-01, 5.372496161509685564e-01, 6.837174606822611356e-01, 3.285890761887015343e-01, 5.430342821398370656e-01, 7.077259145122557493e-01, 3.599816805885559523e-01, 5.653113145745637669e-02, 3.091043246419029056e-01, 7.568970811153828970e-01, 5.088753337220351947e-01, 3.255345891210322251e-01, 8.951427612642786080e-01, 4.470126847091361322e-01, 4.895754827524863018e-01, 9.305767739998989097e-01, 6.534855916691200139e-01, 5.195353888354878880e-01, 5.863395803948810991e-01, 4.768761386590503748e-01, 5.252279658935298245e-01, 3.557308324842380909e-01, 1.665767632232550421e-01, 7.610639864769349616e-01, 4.131045096051054744e-01, 2.931033148684675238e-01, 6.551926486852918119e-01, 3.005612644317251503e-01, 3.519149499747456500e-01, 6.057768670814642764e-01, 9.428213871587195483e-01, 4.923241510074043426e-01, 2.969226581242169760e-01, 3.992429062956899810e-01, 5.383508646458664559e-01, 7.902521588106061756e-01, 8.035147343558342037e-01, 3.376916995546368483e-01, 1.373363251073428659e-01, 2.247338257356910896e-01, 4.629760143701015518e-01, 4.761454558322760766e-01, 4.417543957610699235e-02, 1.034186530447614438e-02, 7.119083206186215262e-01, 5.031265109882574471e-01, 1.346938275621982484e-01, 8.630982615736332297e-01, 4.239991911162939164e-01, 8.990254804225682461e-01, 4.284179180600410919e-01, 6.694684927939065222e-01, 8.132213344929305476e-01, 8.970442886945861893e-01, 8.332772655559621544e-01, 9.499401486220174773e-01, 6.359341213839286855e-01, 7.304478056506960026e-01, 4.769419172558928000e-01, 6.335890619215576169e-01, 7.534886750401706967e-01, 7.583774449733664269e-02, 9.353513255698793216e-01, 5.769031778362649909e-01, 8.009918908094899592e-01, 3.337679422601215196e-01, 1.788310060328453521e-01, 6.306525129205642344e-01, 2.892264297487494584e-01, 1.195679519698057414e-01, 5.926421998223448950e-01, 1.930033070653601746e-01, 4.918016779910508451e-01, 3.787935741196486461e-01, 9.614352765352414121e-01, 8.764398847113427093e-01, 4.501247874734412568e-02, 5.927908357893620916e-01, 3.862679669946713634e-01, 5.695218981313405759e-01, 7.054128049523524790e-01, 5.294230265093815557e-01, 1.064554977916499223e-01, 9.245060190281897405e-01, 4.438146902282208428e-01, 8.485019543039236112e-01, 8.352644116786606121e-01, 8.125170001159315314e-01, 5.990920539779333032e-01, 7.891471292635315882e-01, 8.755644645832405537e-01, 1.769456895669725971e-01, 2.138057272512257911e-01, 5.149882420545982553e-01, 3.567424055446003495e-01, 2.383938371731376682e-01, 3.738619475486314458e-01, 7.167976549632734118e-01, 6.139433821053800200e-01, 8.156644037100083122e-02, 5.185004286886949476e-01, 9.842258501521579106e-01, 6.127980277197693226e-01, 5.097993102324020753e-02, 2.833544613276005597e-01, 3.193337432212668969e-01, 8.856280216848371190e-01, 2.836637588867659820e-01, 3.189541754867518675e-01, 7.972392990886008057e-01, 7.202120387844652694e-01, 3.054732396427810026e-01, 1.042991486809622531e-01, 5.240561315758341943e-01, 6.706444949325769400e-01, 9.396189891603011143e-03, 3.505596565322146585e-01, 6.909819140552073691e-01, 6.547117331764594761e-01, 2.557348327385925990e-01, 9.317816926342348260e-01, 9.632717917306329314e-01, 8.960993052480803467e-01, 2.000737475886137373e-01, 8.430498563033200776e-01, 7.526081667658586216e-01, 6.847394727011606452e-01, 4.585635700571943918e-01, 9.957813796705214937e-01, 4.144234105968548354e-01, 8.932442296856605291e-01, 4.318082990565245138e-01, 3.183786151045376323e-01, 5.771453045620218436e-01, 6.983206446137019130e-01, 8.324845732424813738e-01, 8.820144590604757084e-01, 7.729460912875643075e-01, 8.173593605326502365e-01, 4.507486138215752169e-01, 4.404715706033743294e-01, 4.270011033396017286e-01, 3.319597622014988092e-01, 7.383918933639537219e-01, 7.280802487419932856e-01, 4.824370212774598543e-01, 5.821470090298916933e-01, 5.687437005436323245e-01, 8.835249510065842360e-01, 1.136166508295959471e-01, 6.381729178745622066e-01, 1.815250509113197075e-01, 5.322563460114346778e-01, 7.885133402530426494e-01, 1.242627489657973650e-01, 2.928661032948662868e-01, 8.706540737204043756e-01, 8.894557950407923075e-01, 4.418860973072148979e-01, 1.637773226163316553e-01, 1.088642537688843254e-01, 1.212810689306355050e-01, 9.029115625036929771e-01, 3.137561432287515051e-01, 6.424099795764720566e-01, 7.421617661087430706e-01, 9.896840010002483368e-01, 5.610889888874306397e-01, 8.575235245639366566e-01, 5.388951686633685068e-01, 4.055962874260315987e-01, 3.728728159161717182e-01, 5.886526608267071969e-01, 5.593268917960242392e-01, 2.608446316375465264e-03, 1.121833881239737984e-01, 7.720293910871166565e-01, 4.578927003986497657e-01, 4.072158731870261783e-01, 7.955521977100572517e-01, 5.628429112658882572e-01, 1.889700023993929334e-01, 4.413664496782381680e-02, 7.230196491181343221e-01, 2.369698991432696022e-01, 9.625665432941041821e-01, 4.738569857368714056e-01, 4.755033277525959057e-01, 5.736205713070887668e-01, 6.493898499758784526e-01, 2.280578674106295556e-01, 4.411060587452500514e-01, 5.834245653835123946e-01, 7.287539900334041310e-01, 1.502040966025824653e-01, 1.574414930044062133e-01, 3.107402268275804014e-01, 7.000841850998644478e-02, 6.391772711986223321e-01, 5.804874337021463937e-01, 7.601274706674193693e-01, 3.563263140364623105e-01, 4.252439970699326000e-01, 2.657829726584064467e-01, 3.575658023220567583e-01, 9.146761296113254947e-01, 7.102851656884373588e-01, 5.024309020296170436e-01, 8.110147423198965644e-01, 1.846524723535248047e-01, 6.187570856731574448e-02, 5.216611136726023723e-01, 2.284638988563528483e-01, 4.899721181900746902e-01, 2.089522238879874816e-01, 1.764607586409438211e-01, 4.177721075726689715e-01, 4.642609221269378694e-01, 6.087012109588647579e-01, 6.261859386428180185e-01, 7.734043819342996118e-01, 4.424930660392097925e-01, 6.201788804210071060e-01, 8.904379759862648402e-01, 3.380845071466855312e-01, 7.981623279903116153e-01, 3.922263808564648846e-01, 9.263665354456784851e-01, 5.981198370779885476e-01, 9.033222784058870802e-01, 4.916519277134582255e-01, 6.751636212161895578e-01, 3.906033167600091449e-01, 4.462215906837797563e-01, 6.346295141127140660e-01, 5.419380245896908699e-01, 7.527683522625274737e-01, 3.584538392952554831e-02, 6.956591508479394170e-02, 9.601530208757463880e-01, 7.677371868096881657e-01, 4.210820779121358659e-01, 2.887593722314309858e-02, 5.471385305195699544e-01, 8.269579949519851869e-01, 4.772055274216273346e-02, 4.680093305001387094e-01, 9.195228039328618985e-01, 8.019662502393484216e-01, 2.284459643014697672e-01, 6.360121942595869937e-01, 6.903081841067779667e-01, 9.994341881696625629e-01, 8.712461104198701012e-01, 5.314083466994541372e-01, 2.053089460158462054e-01, 4.453052151389528812e-01, 7.588112878663576533e-01, 1.322525325631149773e-01, 3.355103719856382671e-01, 5.696035694523934323e-01, 8.475582640465445516e-02, 7.160447113940239250e-01, 5.806775068139584661e-01, 9.828540164255503697e-01, 9.264163074361466688e-01, 4.638281059105174298e-01, 5.459848750583436994e-01, 6.737993688962988781e-01, 1.361557383619813599e-01, 9.888341569933900566e-02, 2.166444563158153314e-01, 5.519730070535633359e-01, 8.527809523592562169e-01, 2.802605492238289253e-01, 7.558629328641096601e-01, 6.707610017096694577e-01, 6.023136576637292405e-01, 6.545589213664196881e-01, 5.156136152152299701e-01, 5.265193650724774299e-01, 1.351131410716753349e-02, 1.634463630831403946e-01, 9.342281159143421831e-01, 6.142765649201673561e-01, 8.766227820140769511e-01, 1.659633988002405247e-01, 9.224995619721997331e-01, 3.362625137472097792e-01, 1.264415988000388014e-01, 8.706707689376605996e-01, 5.599728267876943333e-01, 6.042845014838054141e-01, 3.575555867756796680e-01, 3.052229724691884472e-01, 5.066853181356084646e-01, 4.327983777241853000e-03, 2.787714553553838903e-01, 6.387965539025827200e-01, 1.891966970858761088e-01, 3.278246536984141118e-02, 9.203149209977184997e-01, 2.256578642938728840e-01, 4.493328583292220402e-01, 5.459083337097252464e-01, 3.558425589627895458e-01, 8.596199358993944495e-01, 2.935145209534759658e-01, 9.458999445535458683e-01, 1.539172534914867163e-01, 5.938624808173394998e-01, 3.754282535384816794e-02, 6.203023324301470964e-01, 4.167068834339879846e-01, 9.683744460010916821e-01, 4.315754382138833334e-01, 8.178780993440292191e-01, 7.429726710894829500e-01, 2.987437220389282944e-01, 7.975669538535450354e-01, 5.346491034817116850e-01, 1.095301332211457146e-01, 7.332753635460558250e-01, 7.449335865183478456e-01, 3.641656287822133131e-01, 4.007545022992768657e-02, 9.560236852295970200e-01, 3.300253415265142487e-01, 5.664511102849735247e-01, 9.018394807426801663e-01, 2.851304209581878024e-01, 2.429669384055981318e-01, 4.960240484349163204e-01, 8.270519848422560605e-01, 9.643825953703071274e-01, 4.092220505795793328e-01, 4.457625394801481566e-01, 1.044380948380988078e-01, 5.317714021242331279e-01, 1.098140759984270361e-02, 6.488394849673342346e-01, 9.207786123884907636e-02, 1.889554310002538318e-01, 1.008740557315297021e-01, 9.748425552182266030e-01, 1.645439449213950134e-01, 7.844858883041627706e-01, 7.294146682266445803e-01, 2.401843318949181683e-01, 9.196545551203347824e-01, 3.186446244554100860e-01, 3.839764576278567598e-01, 2.650670445079405524e-01, 9.435647953396966714e-02, 6.532397720141647213e-01, 6.101900933772012037e-01, 2.071129386358157853e-01, 7.903669757093799708e-01, 3.254681793179214355e-01, 6.573757734981532375e-01, 5.021502776819245506e-01, 7.840910244041678079e-02, 2.802483449673180416e-01, 6.312662573815792655e-01, 2.010053746969998612e-01, 6.337134459864626757e-02, 8.643668070556218552e-01, 1.762371622871581889e-01, 2.868820350738982561e-01, 9.855855853583843362e-02, 8.529445761201427390e-01, 7.592972707906212593e-01, 1.447685314861901773e-01, 6.525158498987995159e-01, 9.505268420422419151e-01, 9.983902353997374801e-01, 8.526028659986626401e-01, 4.694834814944729984e-01, 4.608556765620513418e-01, 2.940959930712609780e-03, 1.274212794480001909e-01, 6.954450868271596642e-01, 9.962388757907252312e-01, 1.978946689453683072e-01, 4.457688456339013727e-02, 3.418555990890333185e-02, 8.166131055144422168e-01, 8.848742107878708740e-01, 6.562983393767215512e-01, 1.807350518934894845e-01, 7.811190708469625266e-01, 8.700453672416743611e-01, 1.778396112271543594e-02, 7.316124644642101327e-01, 3.260003724891334664e-02, 5.323248567950512600e-01, 8.303007920443142842e-01, 8.826231356646129234e-01, 4.656996569048251627e-02, 6.996036916609854606e-02, 2.693979216473407212e-01, 6.295820255409041444e-01, 6.035626633955698539e-01, 3.035639551702814520e-01, 4.495469306121290254e-01, 7.620277117552334278e-01, 8.066367914133355521e-01, 4.539971903570022560e-01, 3.368166596353148190e-01, 3.543408121450321024e-01, 9.786157118395453214e-01, 8.292531020458644431e-01, 1.676121659838486211e-01, 1.126859648697817184e-01, 4.288632264426958662e-01, 9.872328535426485585e-01, 3.906993990888981139e-01, 1.041538645248107769e-01, 7.645142138778321383e-01, 1.332629156889576227e-01, 4.063268711696789159e-01, 4.842667472805482071e-02, 6.833824023767257616e-01, 3.764428449998492576e-01, 9.290479315357466072e-01, 1.048475121468000759e-01, 2.527335873300011748e-01, 9.217115687007871871e-01, 8.126948492674688218e-01, 8.637846595722845633e-01, 4.141876105061555458e-01, 7.436985579714441297e-01, 1.539739658967004265e-01, 9.002215022923836241e-01, 7.391644681702659314e-01, 1.440515010119925408e-02, 1.691147341308584795e-01, 1.761609453333397302e-01, 8.377795003799024531e-01, 5.596660174788803399e-01, 2.843170804911248073e-01, 3.342071548133609959e-01, 4.254463168030492293e-01, 9.994403748054004888e-01, 5.187691510950042106e-01, 9.582780803973239836e-01, 5.263542637334434060e-01, 1.131597497476948821e-01, 8.581217325139413044e-01, 9.335709226923100124e-01, 5.177900057299216208e-01, 8.346211088136277212e-01, 3.280023546443538995e-01, 1.202465498278025707e-01, 8.496814179408607171e-01, 9.117649452080802686e-01, 3.380493074293455802e-01, 8.058179027989547105e-01, 8.289227317400736927e-01, 4.466919564581351421e-01, 2.093554103722317927e-01, 9.051590407342279265e-01, 6.141345004242073635e-01, 6.886269380162525211e-01, 7.776096612541613107e-01, 6.689980200313876413e-01, 3.168940318182563165e-01, 3.616088924543895411e-01, 9.017827865410789068e-01, 9.806504368273044614e-01, 5.898573809726987971e-01, 2.898058169899987366e-02, 4.420355570724669031e-02, 2.208778924124950860e-01, 7.847459235972983338e-01, 1.527051056778927218e-01, 4.725696833488346460e-01, 6.542754236506935772e-01, 6.821720837972090612e-01, 5.396843363605091648e-01, 8.107074333891728379e-01, 8.394796335681788957e-01, 4.016401922314150053e-01, 8.211348544509996517e-01, 5.100335272606845161e-01, 1.893187389467217985e-01, 2.879038323914163144e-01, 4.858372414896094393e-01, 9.020385211928041991e-02, 9.713160670698117727e-01, 9.635495850505527704e-01, 5.024298014215298203e-01, 6.230139263028462437e-01, 6.100553837080842090e-01, 2.165970540934821498e-01, 7.223349684400739434e-01, 9.371892315200853751e-01, 7.830921924480308549e-01, 7.580122189773494945e-01, 6.396956021272395265e-01, 2.036944297251079838e-01, 8.610547439002689263e-01, 7.687075606933208016e-01, 8.458697111515592892e-01, 5.972706890796385393e-01, 8.169749902419115584e-01, 8.196701854468464443e-01, 1.850411857285192696e-01, 1.454803204846172870e-01, 5.386353807452936016e-01, 3.787346139067589434e-01, 3.581685605191797239e-01, 3.558616731962116041e-03, 1.833471413324504196e-01, 7.076296186607404781e-01, 7.543461956494708354e-02, 9.632685089162552616e-01, 3.063370033211360033e-01, 4.258747382843247054e-01, 1.262887003350754156e-01, 1.607634614331307499e-01, 7.160441534882340253e-01, 4.650554153516125999e-01, 6.241720167379871675e-02, 6.058497672637661591e-01, 9.039633416181358516e-01, 8.021876750705491110e-01, 3.626573592605276675e-01, 5.475289291058300922e-02, 3.255082249123726346e-01, 7.702338874166214655e-01, 4.824034588273113378e-01, 9.677865609997172713e-01, 4.181597439341859235e-01, 2.639657143936122163e-01, 8.950701681488947292e-01, 6.868294239785780464e-01, 8.738070753496596232e-01, 9.362156974110689145e-01, 6.574906217046946333e-01, 4.487697222992898666e-02, 8.621549243764818904e-01, 2.358787386678619091e-01, 2.342457515154393322e-02, 2.909695908058412273e-01, 2.417482777409100947e-01, 1.373867386318719519e-01, 7.138599968240213478e-01, 6.774068959581499572e-01, 7.669147798712749875e-01, 7.820230953772765448e-01, 8.728108494067650103e-01, 8.773953493662794978e-01, 8.313597079521789501e-01, 4.667900325088304436e-01, 3.490672492626610834e-01, 4.740112614574109040e-01, 3.629017429759255897e-01, 8.167680001337734863e-02, 9.466772902224097619e-01, 9.008146819105635750e-01, 3.880150830495874836e-01, 8.626644841142829812e-01, 7.353788000257172053e-01, 8.755164696480274289e-01, 2.966611894612950495e-01, 1.269524241885513181e-02, 9.678818303192376904e-01, 8.886423160891371298e-01, 4.397921283835330014e-02, 5.207952211891313521e-01, 3.995216435513607722e-01, 1.669569628729004052e-01, 6.351247637838899340e-01, 9.683043235510073454e-02, 8.654329373560124550e-01, 9.766142206479904164e-01, 3.241538092783473046e-01, 5.710809766405583465e-01, 3.446089367130152903e-01, 5.585036965368220807e-01, 4.114364919980250113e-01, 5.222747008514102562e-01, 2.681024688064844175e-01, 6.561637137706775036e-01, 5.930538914947346418e-01, 4.714266998561384980e-01, 5.983856599496580886e-01, 8.272768697859725906e-01, 8.788573758029795124e-01, 7.385514709733831396e-02, 8.411947434368217680e-01, 3.601436202266855569e-01, 7.199508749412332209e-01, 9.698650537813902073e-01, 5.555934285973402886e-01, 5.495962579881679133e-01, 4.110405023699317262e-01, 1.417316725664674593e-01, 5.785634598752128488e-01, 7.070395979925013785e-01, 7.082979229117734865e-02, 7.429415172687673374e-01, 2.487466598272352059e-01, 9.959727693536880588e-01, 3.439366247698538714e-01, 6.423042955407353150e-01, 3.398479141560180050e-01, 5.987758377045459234e-03, 8.344137231868474780e-01, 6.792527405322733580e-01, 4.221983251274815108e-01, 2.203798335355667271e-01, 5.352521408797765723e-01, 2.909271515682674836e-01, 2.822326387161455119e-01, 2.887219678197646133e-01, 3.369218467883950408e-01, 9.776270218697051817e-01, 3.568185609552391724e-01, 6.755058670458451431e-01, 7.293410919042639939e-01, 4.722318770382903930e-01, 5.467741894641229283e-01, 8.887717323947914583e-01, 3.343818759150478104e-01, 9.267366563252616984e-01, 8.283636092193449874e-02, 1.146616128063136369e-01, 1.104540071435716198e-01, 6.798090009057082828e-01, 7.241603175714989016e-01, 4.125139450940707997e-01, 2.938481374085055720e-01, 1.053967561086501248e-01, 1.676916613543454893e-01, 3.770362998866521043e-01, 2.163730613562737382e-01, 5.982281193833055566e-01, 8.161590392116234716e-01, 3.509346243598639448e-01, 9.576957130997278966e-01, 3.576764215249749190e-01, 5.311486062972273769e-01, 3.895753668475337439e-01, 7.166648631779656275e-01, 3.391619759224351882e-01, 8.685456031019108680e-01, 2.901086842065004889e-01, 9.073505777108618053e-01, 4.250767666145153778e-01, 9.902318220361490120e-01, 6.117648968882152261e-01, 2.267315462990880381e-01, 8.529329096849573855e-01, 2.017406087139485826e-01, 7.389313967030877173e-01, 5.794501471148922889e-01, 1.475439993877311062e-01, 7.059440711219383546e-01, 7.588746590252692936e-01, 7.493982236706622224e-01, 7.132987532732902869e-01, 7.768082105991664932e-01, 6.068622421454615834e-01, 4.486503648806081657e-01, 6.552254031520275968e-01, 1.512745041616558872e-01, 8.887069213488660857e-01, 6.242540911051460695e-01, 9.074687124907643287e-01, 2.608930695634884001e-01, 4.011488861447103094e-02, 2.681467311792160024e-01, 4.313372269593503394e-01, 2.214617884666635339e-01, 9.221711896758716387e-02, 9.826642063332641230e-01, 1.808737344613987330e-01, 2.603489612827575295e-01, 2.773061333135579121e-01, 5.331155274244543385e-01, 8.553456117731398356e-01, 6.504492666925523192e-01, 9.451642098715415941e-01, 9.768751418361371064e-01, 2.675494959137681428e-01, 2.102637759319560817e-01, 2.516331261620136650e-01, 7.576691016362796516e-01, 2.544173675793264255e-01, 5.790646556551058699e-02, 8.237519780311266526e-01, 4.813509408100754006e-01, 3.999907594975644076e-01, 9.326289236134339689e-01, 4.798366449470408135e-01, 5.697578499004556374e-01, 8.080702797209559085e-01, 8.596131512438146549e-01, 1.580479444705959469e-01, 1.405651577491000837e-01, 5.577130475120126718e-01, 9.187502030809706621e-01, 8.551688967191135582e-01, 9.712206247379789881e-01, 1.111068396414303244e-01, 5.278564489725532383e-01, 5.169935260698382828e-01, 5.123405879174260935e-01, 6.417900517451905484e-01, 9.392560118696684501e-01, 9.472331943208396332e-01, 9.167599502219088148e-01, 3.839661147305693106e-02, 7.704856534707084093e-01, 4.858101815079088892e-01, 8.083193785421337596e-01, 2.909510693715116614e-01, 7.393253622339842623e-01, 1.386693760669922559e-01, 2.779288458804741735e-01, 4.940670988689780385e-01, 5.565312633291545907e-01, 5.607126021576527286e-01, 3.923715426021888719e-01, 3.670120502566994736e-01, 7.624114000748190012e-01, 8.339980121935032242e-01, 7.387918169398289825e-01, 7.740683826282525049e-01, 5.570638125802804819e-01, 1.311618235204684360e-02, 9.582639932154850548e-01, 4.773868551770515389e-01, 1.254978723352875303e-01, 5.105480814372519438e-01, 5.037243572702156807e-02, 5.065597095776809278e-01, 8.083832857780379744e-01, 6.789980728540085941e-01, 7.362574607446507047e-01, 5.719378018301376487e-01, 6.255990183899122759e-01, 2.881563765465246507e-01, 6.604906958193790256e-01, 8.478576879030523816e-01, 2.276642819330174441e-02, 5.055480008707089468e-01, 1.795094672563311011e-01, 6.253079671543284590e-01, 1.221917587167720004e-01, 6.726883704735253655e-01, 1.766804193856889860e-02, 7.554370923752697919e-01, 8.166027085998928126e-01, 6.498288569624051103e-01, 4.488002309752956442e-01, 5.580986329271043767e-01, 2.760866196123528127e-01, 4.564573995926594630e-01, 7.466920913000658633e-01, 5.045986153041718270e-01, 8.513298052463500465e-01, 1.688091714876872595e-01, 6.789964068318101731e-01, 9.604625830720614488e-01, 1.337995839816172317e-01, 2.061766425402407621e-01, 9.774330942533697719e-01, 6.365315240248371476e-01, 2.635110966316913661e-01, 5.785407842953373125e-02, 1.303952411844432613e-01, 1.893149024965084526e-01, 8.133863062724873139e-01, 3.904173932503383071e-01, 2.938385755000614274e-01, 6.400949429122587686e-01, 1.318764130825277048e-01, 4.324915095486069339e-01, 2.631927905676976764e-01, 6.679683925431221247e-01, 4.080073577711403332e-01, 2.704728398244304333e-01, 4.052027189557120823e-01, 4.295330184245459426e-01, 4.332949550844252262e-01, 9.108968795627104820e-01, 2.938241735971033330e-01, 8.532351465561754944e-01, 4.589173123045479086e-01, 5.486577342972623894e-01, 2.865825325234882051e-02, 3.060717819577895016e-01, 8.913949541266516507e-02, 5.250680759805494979e-01, 7.514981435332303006e-01, 5.416826321640013653e-01, 8.641970245047676524e-01, 6.192378086908219004e-01, 6.279004399192129604e-01, 9.003489281618844986e-01, 7.462445168212166191e-01, 7.336624868406431688e-01, 2.956941918261568950e-02, 9.664414579031755936e-01, 9.619931714599458950e-01, 6.180838078411368119e-01, 6.016571638854316395e-02, 7.131807320843659426e-01, 2.046007617237906029e-01, 6.523848502824383111e-01, 9.990593473775553068e-01, 9.611935848957654516e-01, 3.843877648275974002e-01, 1.689226743661471075e-01, 2.652126833445575538e-02, 6.090491522775288991e-02, 7.150497912804207878e-01, 7.506791034573102595e-01, 3.690050042465043978e-01, 4.463275008559022261e-01, 1.707941987588591504e-01, 9.032117137087122272e-01, 1.533315287038253816e-01, 7.423478560471912235e-01, 2.997801090815971001e-02, 5.525893125586277543e-01, 8.166642486952743196e-01, 6.729333519588056589e-01, 4.821129934576977583e-01, 7.929026730391024458e-01, 1.977420711436996270e-01, 7.653067703626486029e-01, 7.434672803967840027e-01, 7.853860908057905266e-02, 3.289725388691439045e-01, 1.264736571025272538e-01, 8.048849547628912360e-01, 9.156828437073150084e-01, 3.641333261977338764e-03, 7.689764405558137117e-01, 1.293530905434032985e-01, 9.472094439391897103e-01, 7.348225883159222871e-01, 5.054621142530085764e-01, 9.680720839466825378e-01, 1.203826311979477870e-01, 1.436444338432886492e-01, 4.861253733957556777e-01, 6.287209793788505197e-01, 2.586867048959114457e-01, 9.887043108411708303e-01, 1.118017158869995947e-01, 8.468520079577478432e-01, 8.919187209123455862e-01, 7.663223891213921668e-01, 6.076069903730701993e-01, 2.800326512318457306e-01, 2.095976210341680968e-01, 3.092994267448283541e-01, 5.092369628945156990e-01, 7.079032354246780345e-01, 3.139746152061085871e-01, 1.336440718808820094e-01, 1.454610216946602141e-01, 7.591840248403178837e-01, 9.379226687910239280e-01, 2.177104587303723970e-01, 7.945612267129391615e-01, 9.686270240437849788e-01, 6.834596735850956284e-01, 7.286746394597662935e-01, 2.384317596158042410e-02, 2.441355146326775749e-01, 9.654794825314074735e-01, 5.852398671062649521e-02, 6.034409749107714216e-01, 2.987185633035814303e-01, 7.221899409519807467e-01, 4.208945249853665582e-01, 5.043483085781982345e-01, 6.289638513960174038e-01, 4.470578664273949093e-02, 8.866225322571307244e-01, 4.282553703895692343e-01, 2.041270065233028452e-01, 7.014589497517551009e-02, 1.858710951162505787e-01, 5.049763854299634674e-02, 1.015276528889586492e-02, 4.661814562022554842e-01, 8.889485000751570221e-01, 2.289522576899760686e-02, 3.348399494625874939e-01, 5.496897787752669240e-01, 7.355731926880416660e-01, 2.718034475719411924e-01, 5.344685713823445899e-02, 7.570673748161200756e-01, 5.918648654430692657e-01, 9.515386539350233486e-01, 8.644783524439694222e-01, 8.127746766366231723e-01, 5.098724819969675803e-02, 1.392964020704937911e-01, 3.132261865661208067e-02, 7.436838924280652074e-01, 9.122018220719571024e-01, 9.218126003660749579e-02, 7.909716055990766437e-01, 6.612902886821337978e-01, 7.395584259557946849e-01, 4.831398711399851470e-02, 9.246361302780979619e-02, 2.320059310155838939e-01, 1.637679619585273860e-01, 6.714265794113495334e-01, 5.757694204433326801e-01, 5.589415526367580433e-01, 6.033917133123802845e-01, 1.186414368764385219e-01, 5.494327264410591161e-01, 5.948705177244127951e-01, 5.299016051128998539e-01, 6.257689832231072558e-01, 4.037709372398443630e-01, 6.608454036484210370e-01, 3.372667033056797603e-01, 9.985166246534398216e-01, 5.385808307954956797e-01, 9.661780415520296872e-01, 9.844525222031756950e-01, 9.427680487243697005e-01, 6.033789923312808945e-01, 8.169260258194672719e-01, 1.382740014935033845e-01, 1.906877940528285686e-01, 1.602292879223996824e-01, 1.959698781077526542e-01, 2.914148436711166412e-01, 9.840459305651990674e-01, 4.629958575350868327e-02, 2.267960646302668304e-01, 9.999681838687346502e-01, 2.668596587673802700e-01, 3.492353676652516503e-01, 5.809283509813514823e-02, 5.460751061272302032e-01, 5.940812524348182411e-02, 5.598367690858071510e-01, 1.180943445462866448e-01, 8.991790862306753285e-01, 1.449507608593514352e-01, 7.817106369831566814e-01, 5.643609625128058749e-01, 8.331900945340346976e-01, 3.545157128004805536e-01, 6.132974170576335204e-01, 7.400043449482311964e-01, 3.129186540385198723e-01, 7.636717769540281309e-02, 6.351712904041078023e-01, 2.086765540385329687e-01, 9.859784234932026381e-01, 4.521378441536839654e-01, 1.651986885530259130e-01, 3.680008127769421877e-01, 6.640848917059344325e-01, 5.758629130411674346e-01, 7.862245813361081748e-01, 1.885335472755202968e-01, 9.443060314595768112e-01, 4.869413193671152662e-01, 6.025772936485816050e-02, 4.479238467139535218e-01, 5.327583771504673660e-02, 5.802413303452029769e-01, 1.757949482755239712e-01, 5.258429608082171303e-01, 5.589973086941963931e-01, 1.026427259072351800e-01, 8.819187505360616131e-01, 6.053508579080334462e-01, 4.490406463763134126e-01, 1.028939571998069707e-01, 1.623301133051624490e-01, 3.744113550338712959e-01, 3.923676116460548258e-01, 9.006754657504053574e-01, 1.790443018817771126e-01, 8.745144168138849761e-01, 3.945249119510819136e-01, 7.084563429268545542e-01, 7.865167284130073488e-01, 3.605596533859393160e-01, 3.995716844549040414e-01, 3.340474993200728271e-01, 4.169617120470722194e-01, 1.723393885272373194e-01, 7.809762998646699872e-01, 7.498215678761456504e-02, 6.374864667905402182e-01, 9.741897757473886310e-01, 3.145239220546663939e-01, 7.632805365125662211e-01, 7.965185916733535931e-01, 2.280960894825248830e-01, 9.501567079542133643e-01, 1.458906325154319950e-01, 4.383080531704066085e-01, 6.918402154073725052e-01, 8.531979783242892301e-01, 5.708231178009582907e-01, 7.874235532721686193e-01, 4.708654820007472930e-01, 7.332601899964791281e-02, 7.280506863829724340e-01, 5.381814855550511867e-01, 3.176171615954990757e-01, 2.500835945769506186e-01, 3.637606668317507896e-01, 6.963497267332431351e-01, 2.994778587316593854e-01, 6.643017904138110996e-01, 2.143327664832458679e-01, 4.899623495295355458e-01, 7.808587362945530463e-01, 2.483070136061638344e-01, 4.488571873049606586e-01, 3.908652121697775983e-01, 3.105099748650297919e-01, 9.711134729906387708e-01, 6.137369541918517024e-01, 1.306601464137674140e-01, 2.836984373636347936e-02, 2.701495171538715878e-01, 8.221876198734212604e-01, 1.277508666606088916e-01, 1.330879533483529387e-01, 5.741991316227578190e-01, 2.206617891619158667e-01, 1.807587688920567204e-01, 4.300348321521192951e-01, 2.227250917279331166e-01, 6.186577211235215756e-01, 2.268907885432700292e-02, 1.981580645847281497e-01, 3.893406866407609912e-01, 1.696142470225060761e-01, 5.500102365341168476e-01, 1.484653015903037443e-01, 7.926893612757913710e-01, 9.813704681266718355e-01, 6.939949727712473315e-01, 4.125403579011702182e-01, 2.515009507124009724e-01, 6.724767130823370298e-01, 8.429937801694530330e-01, 5.769741588636885243e-01, 8.390271041072745462e-01, 2.410011155235160588e-02, 7.622882635072578683e-01, 5.244769163759815944e-01, 4.846837687532283279e-01, 7.591438569357097377e-01, 8.427278286475878843e-01, 3.401906270812323219e-01, 8.813892167911528963e-01, 6.362057882670009157e-01, 7.519633638876213610e-02, 6.987216122318596900e-01, 1.059652793697361678e-01, 4.819989313536983122e-01, 8.685713545604892838e-01, 3.855186795441480352e-01, 5.377586327550809564e-01, 6.168990629653147151e-01, 6.893027749222975231e-01, 9.830709205990538768e-01, 8.988692737710756164e-01, 5.793844738733222588e-01, 6.690413609446271836e-01, 6.542161333076954577e-01, 8.874864370055314255e-01, 7.192652965045179814e-01, 5.057601656863380812e-01, 5.614084248520393450e-01, 7.533004503125553253e-01, 5.781147141936866518e-01, 9.145910218828163796e-01, 8.348256438065925211e-01, 6.703149885819206233e-01, 1.520753532734083757e-01, 2.553992437588737396e-01, 4.523525819620614619e-01, 5.517802556246346191e-01, 2.830501077561424217e-01, 5.465887454835612891e-01, 6.172592728338673895e-01, 2.946997936989624312e-01, 4.931368325882342085e-01, 7.846007823148160032e-01, 8.640364266103810198e-02, 3.478839789308537656e-01, 3.934257741912541295e-01, 3.588980892841887038e-01, 8.236258507759196545e-01, 7.559371515483398474e-01, 3.600548317697165879e-01, 4.034730524384017025e-01, 9.900001485799897472e-01, 2.566697247003210114e-01, 6.364537495806706913e-01, 6.800912086996280248e-01, 4.844290201323236955e-01, 3.302162952049678690e-01, 2.388195114431363175e-01, 3.034453189447629540e-01, 3.853496420311972731e-02, 5.796993820056588892e-02, 1.003880832641819709e-01, 6.911384029541655094e-01, 9.450043662663848432e-01, 5.155636627287818463e-01, 5.694063540798198764e-01, 5.134742566924352936e-01, 2.251386842250485132e-01, 6.682525790333425642e-01, 2.421071215095876861e-01, 1.702892394514488733e-02, 3.021231455110207423e-02, 1.293564195110833148e-01, 4.148427339711875939e-01, 1.738921745583762724e-01, 8.305439850468446794e-01, 8.135096616129404712e-01, 4.761582223715998263e-01, 4.597070880341563859e-01, 4.108346542489746400e-02, 6.560126570176716410e-01, 6.298725284010942005e-01, 8.085069753566296313e-01, 8.930391441846198264e-01, 1.122048994638260577e-01, 4.984476731184794840e-01, 9.404346765390410035e-01, 1.701448723023542831e-01, 5.397647817803056386e-02, 8.987500856950317862e-01, 1.179567635708359818e-01, 7.056077990512633902e-02, 6.252553898861280546e-01, 6.215312256563575444e-01, 4.657783169827235947e-01, 9.606379398965150251e-01, 7.946475366393371820e-01, 4.818809901283679920e-03, 8.877084200513659651e-01, 1.306884771725135286e-01, 8.119964808840381965e-01, 7.081584873875345076e-01, 2.412103739372945255e-01, 9.561095706296253161e-01, 7.945555796178518371e-01, 3.974022307175920088e-01, 7.455536569251346446e-01, 9.554852441131608254e-01, 4.716238966605019733e-01, 1.833950883938948451e-01, 8.226625829787854727e-01, 8.621220325161353948e-01, 2.165677154023835371e-01, 5.188747606124333167e-01, 9.326500318482869867e-01, 4.477019931650642048e-01, 9.457390944282481615e-02, 3.651514795911410816e-01, 2.531358414597396633e-01, 2.074703436625061626e-01, 2.398699344602217010e-01, 1.225893782955611022e-01, 8.768384647778197927e-01, 5.233829362291390064e-01, 3.530864261167596108e-01, 2.736319097016398638e-01, 7.687395522509234969e-01, 2.067166296685911051e-02, 5.177040643643222584e-01, 5.401819712433416631e-01, 4.184452899307306573e-01, 1.951314022837364603e-01, 4.587225595045002491e-02, 5.392583734104502424e-01, 5.852630778768304065e-01, 8.333186283641419445e-01, 8.551016316017387986e-01, 6.716742173741012678e-01, 8.972889694980106245e-01, 4.363036831373904856e-01, 7.036419107284330732e-01, 8.863731023552928745e-01, 5.999214368190205343e-02, 9.758040608853987274e-01, 5.946494766147617517e-01, 4.538006448553035810e-01, 4.047785686102372549e-01, 3.929618515701644443e-01, 7.409223725090626766e-01, 6.504030134250577966e-01, 8.829731835571308363e-01, 3.014885147319993353e-01, 9.296344133884818506e-01, 8.057214622552536509e-01, 7.399586639615211847e-02, 4.930479157227230513e-01, 5.540490208892936419e-01, 3.615751061100661579e-01, 2.238393809389729039e-01, 2.651003126240990548e-01, 1.503142850931490637e-01, 5.250017804795076293e-01, 8.866479081268386908e-01, 8.812794426216330468e-01, 7.688735979367085083e-01, 3.240983261159188222e-01, 4.602869641774204323e-01, 4.676530268727222550e-01, 1.083518237370857118e-01, 8.938187127522551068e-01, 6.868467499015838695e-02, 8.910052556144720803e-01, 5.500702972275008928e-01, 4.424588176656220062e-01, 8.567312880125821373e-02, 4.364002080264123840e-01, 8.087179449690637956e-01, 5.660726169975224265e-01, 2.473592822071610520e-01, 8.006140786365006923e-01, 5.604661800214717493e-01, 2.168160347889558914e-01, 1.439291801525320602e-01, 1.347077314287168370e-01, 6.135302285503476671e-01, 4.442201402310302916e-02, 6.132847259544049745e-01, 5.092452675395444661e-01, 2.395653745180854610e-01, 8.744795705339337699e-01, 8.838151497849022764e-02, 2.207881800524969240e-01, 9.849748291127495836e-01, 9.127052800199497717e-01, 9.228370761374854458e-01, 8.997781144623014926e-01, 1.809230028902790444e-02, 4.006560669855401269e-01, 2.915522659934564054e-01, 7.018825675713399326e-01, 6.570634110890145596e-01, 4.850394838858532870e-02, 7.874417469342775977e-01, 6.098128944029678200e-01, 6.675772616776901036e-02, 7.416515689502793940e-01, 3.086238255950608522e-01, 9.216639687281839022e-01, 4.008468698379203943e-01, 4.464003076370003792e-02, 1.319011274487079388e-01, 2.038936899409838632e-01, 5.045842065452887937e-01, 7.195478381272535362e-01, 1.810948423055532552e-01, 8.000179607445252750e-02, 9.816427494921806662e-01, 4.030289881296163501e-01, 3.446495847151029857e-01, 8.870114735091052527e-01, 3.229317442553971546e-02, 7.872233070730643156e-01, 8.582293541814397519e-01, 4.882130022869401453e-01, 9.226218175616816841e-02, 3.465551765566348141e-01, 3.243195897463420074e-01, 9.969252717319088131e-01, 4.983983915406209886e-01, 5.614743011080883250e-02, 4.209909048825879463e-01, 5.577752252033775504e-02, 7.814099206985604118e-01, 3.345760016209736176e-01, 6.351773749583248252e-01, 4.281173676999280309e-01, 2.870210728414946955e-01, 8.604869363972589280e-01, 4.666168526457302734e-01, 5.726659531153994731e-01, 5.012335855466251155e-01, 8.288848661772920678e-01, 7.379929804281337713e-01, 5.555463040726972279e-01, 9.504364287488258345e-01, 9.931842065674715281e-01, 5.081016909280291483e-01, 8.631792586261626266e-01, 5.722979288949704424e-01, 3.192619150729514299e-01, 8.189310442852035798e-01, 1.113215319163011058e-01, 7.953099082507768536e-01, 5.051138475442890075e-01, 7.180870694164698254e-01, 1.223588614043653600e-01, 4.649909550550532789e-01, 3.327920511215908261e-01, 1.988501476461154993e-01, 1.036849702393895234e-01, 3.491585407093462240e-02, 6.931225142777152071e-01, 9.951526888527437720e-01, 5.529891018732565611e-01, 8.225206396927147168e-01, 8.935354271097666334e-01, 8.583208584008750197e-01, 2.758020978493940789e-01, 7.906038031464095450e-01, 1.726345032330079965e-01, 1.740806467981463879e-01, 7.245553977310497107e-01, 8.766661491910033854e-01, 9.241272421520578817e-01, 8.700141755527935894e-01, 6.061801879821636652e-01, 9.743878985636080792e-01, 2.952987623293596986e-01, 1.238951948366406527e-02, 1.993516872103390236e-01, 6.722416817223078045e-01, 7.086426625146031721e-01, 8.881661223426284835e-01, 3.614028154972991902e-01, 3.960703469999172222e-01, 4.776405911788013103e-01, 1.619734289742816302e-01, 9.869703924562792663e-01, 4.115332575942268756e-01, 3.863506666928995248e-01, 8.473977167901459717e-01, 1.880003186879227600e-02, 3.985748627026003965e-01, 8.674791324631114797e-01, 5.284177728438530508e-01, 6.678503410641757621e-02, 6.096319550451168023e-02, 9.721901429764028268e-01, 7.867937734278027673e-01, 9.696667167106371998e-01, 8.134650336589379638e-01, 5.571584874953968702e-01, 1.532528793735714046e-01, 9.186231488987229854e-01, 7.379854506537205650e-01, 2.177545625705793464e-01, 5.630820489719556843e-02, 7.029848023042435390e-01, 4.748185849734322117e-01, 4.307158222484099297e-01, 8.382523481265455878e-01, 2.576201217653272812e-01, 5.463577492898072929e-01, 9.032600346505984534e-01, 3.992199781698171912e-01, 6.328292947479893238e-01, 6.776069722061474065e-01, 3.858549311013274030e-01, 6.664530683319214166e-01, 6.481514438040512083e-01, 5.052012681600354105e-02, 2.490949742180403326e-01, 7.365687111798719933e-01, 1.966198786068154847e-01, 7.927362544298458547e-01, 5.295957711243557409e-01, 1.298088330826470960e-01, 5.130346248936392684e-01, 4.005371440724077581e-01, 4.065315177658065937e-01, 4.768617101351567689e-01, 8.980390812355941443e-02, 9.598924705527146495e-01, 6.916693327203203845e-01, 1.116258546702686566e-01, 6.877794357995390406e-01, 2.945000190300158804e-01, 1.455415513924078474e-01, 2.663002848018242164e-01, 1.912129572953624734e-02, 5.766009961820768304e-01, 3.372607379492812557e-02, 3.601789786812684135e-01, 2.177446861020500835e-01, 2.851839742354014273e-01, 8.957614981075734395e-01, 7.254775715791013102e-01, 9.652704304514445055e-02, 7.084289725204495625e-02, 3.808136407157823866e-01, 4.963764981013807365e-02, 9.215963730406211418e-01, 2.838309553019720544e-01, 8.524615434462248231e-01, 8.459779692914366489e-01, 5.344358924928371835e-01, 3.421041579272469241e-02, 5.016940565162898436e-01, 7.642410679622652081e-01, 4.028981137691745040e-01, 2.688110946511792498e-01, 3.788633087741181682e-01, 8.355526378751373384e-01, 1.894774260330409632e-01, 2.893311055756193628e-01, 1.849327018994106342e-01, 7.178239290885973789e-01, 7.167474829414643978e-01, 7.012571069666069246e-01, 7.851384586572482949e-01, 2.509602301197852992e-01, 9.659145289121696676e-01, 4.636663196768799067e-02, 1.832808020228391399e-01, 5.014719399702503022e-01, 7.546071392839449887e-02, 9.663820415223214888e-02, 6.170393408546517300e-01, 2.364823936095098167e-01, 2.517340696851925186e-01, 6.801213043999307373e-02, 7.860866672722776061e-01, 2.143144621237621505e-01, 3.637972620180986993e-01, 2.949792001511280515e-01, 9.920342323885241731e-01, 1.780622660554098957e-01, 5.874770240972605473e-01, 9.648404640989961534e-01, 1.546701476626223537e-01, 3.269728802553852343e-01, 8.724351600147443042e-01, 6.723234804779143481e-01, 3.814229124966438955e-01, 1.280099326125613002e-01, 6.041386467838611996e-01, 1.792740439125638519e-01, 1.307272842082232989e-01, 6.832114008142992079e-02, 3.411248884756488686e-01, 8.564395041678899423e-01, 2.849722470029517618e-01, 2.190126658795152337e-01, 8.668992821184696718e-01, 7.774145807796262186e-01, 2.393220799400231358e-01, 3.271694266039467114e-01, 4.293108569589791368e-01, 7.040107937418558226e-01, 3.938838822364690295e-01, 9.194072998017591702e-01, 2.427585339778864648e-01, 2.539620504174890936e-01, 3.251289435907488423e-01, 7.918430867250066951e-01, 3.033302275700269779e-01, 6.694843017052843903e-01, 3.928943629857629682e-01, 2.034899729684396530e-01, 8.991206955078605567e-01, 8.340505244795175521e-01, 1.518542311778792175e-01, 1.958166158368804255e-01, 1.234293326163639209e-01, 1.768413024086694929e-01, 1.776693528155595947e-01, 6.454283505103123320e-01, 4.503070848092290968e-01, 8.615548572423749052e-01, 2.287400940396586146e-01, 3.913582855173097785e-01, 2.460589711693662862e-01, 1.535630989375082744e-01, 9.383957803272843234e-01, 6.723746951211665435e-01, 4.110706752543588083e-01, 4.733601238880944528e-01, 8.624712807566100592e-01, 4.649258024353346008e-01, 5.061102510147797995e-01, 2.738984789148917187e-01, 5.568486157745743403e-01, 9.971800361752821695e-01, 2.586170180365163218e-01, 3.616434268953134801e-01, 7.355110123217464269e-01, 8.675263616844332004e-01, 9.698832137866795211e-01, 3.981419023789575795e-01, 3.760271529640419330e-01, 8.829530174102229179e-01, 4.155332714625161600e-02, 1.202497985344767178e-01, 8.596427868774073611e-01, 2.698734762389498609e-01, 4.289705079067474697e-02, 9.555162506018650692e-01, 7.163626020881138645e-01, 9.911704700273317181e-01, 4.402710045700923280e-01, 4.839925000387675369e-01, 8.596112690401257472e-01, 4.261110946544281464e-01, 1.428549812192684842e-01, 9.700931289316987449e-01, 1.067401913870516111e-01, 2.272530496034592395e-01, 2.708231623157910106e-01, 2.233726174632124917e-01, 4.480347051471535447e-01, 3.448018919872868349e-01, 8.149786036104300635e-02, 5.577627358675538161e-02, 7.197729049064652829e-01, 3.956166320118832957e-01, 5.498675625678348666e-01, 1.246223147243189638e-01, 1.370409685888948903e-01, 9.608186792141646393e-01, 9.806442200289040567e-01, 7.634071203832053232e-02, 2.977855516595476204e-01, 2.213744072588193501e-01, 6.649351245344262140e-02, 5.428884987815724150e-01, 5.242994120250058510e-01, 4.695102305565824752e-01, 6.594989042027615822e-01, 5.474124363901073931e-01, 7.233748489602643827e-01, 4.444008490851712734e-02, 3.729595820405575690e-01, 8.147688167034686790e-01, 2.704167039989104349e-01, 1.898331075244433577e-02, 3.609382132575852387e-01, 1.605962618068068337e-01, 3.328063637199866753e-01, 9.618929414190460214e-01, 4.401330618250778315e-01, 1.972971131084162444e-01, 1.557430494138977439e-01, 5.982797503922031579e-01, 9.844047484577032048e-01, 4.662649269258871687e-01, 8.407801534095921125e-01, 2.222476975813738806e-02, 9.600049460271862234e-01, 9.760787079269203081e-01, 5.858715501342087739e-01, 2.817635116161606446e-01, 9.300081571636156785e-03, 4.227135819543040296e-01, 6.300310699144290316e-01, 4.036308017892973332e-01, 5.343249426457763462e-01, 5.043208456623204071e-03, 4.146528030516499208e-01, 4.397734364356734038e-01, 6.505784342494387307e-01, 2.442924528333163536e-01, 6.129515067484718749e-01, 7.882177489731130304e-01, 9.747306382218371423e-01, 8.541869911447393104e-02, 7.702221821054094919e-02, 5.620438368513179517e-02, 1.505580111823238976e-01, 9.566518993019976769e-01, 7.951917018710487062e-01, 8.823411990484377743e-01, 5.190737358666006607e-01, 6.274432444419107691e-02, 8.655485576730599373e-01, 6.342798365729385157e-01, 4.647920473165467192e-01, 5.957145976138378263e-01, 7.263705909530070448e-01, 3.999915927025192719e-01, 9.296552385276221075e-01, 5.862516781194099941e-02, 5.026237540974044793e-02, 8.685601015603432451e-01, 5.844518254714531347e-01, 1.491424820924220074e-01, 1.609797715432623733e-01, 4.158455767331690756e-01, 3.294937726343457052e-01, 3.187382922463316004e-01, 8.452827458940117555e-01, 2.126574249464988076e-01, 4.133375264056400877e-01, 5.725078379506739479e-01, 3.621045763388730521e-01, 9.398439076662126190e-01, 6.230687678973152455e-01, 9.665665820123274798e-01, 6.710778502761606257e-01, 8.259037199517320627e-01, 2.843492099560081532e-01, 2.741023743707516891e-01, 1.669684329669401113e-01, 5.650684176775659928e-01, 2.936617461536999429e-01, 8.551337668857821317e-01, 9.676012867020100661e-01, 7.648025896317064420e-01, 4.419474821744218129e-01, 9.107413806738656747e-02, 3.377046313690356127e-01, 1.817787095859017543e-01, 5.938931234639097667e-01, 4.512068050627082716e-01, 4.492819348425735604e-01, 7.344497163275275353e-01, 4.979458686802151202e-01, 8.833968312595514849e-01, 7.195724391369292539e-01, 2.587243978879891215e-01, 1.429907545122460211e-01, 7.287148569858089564e-01, 6.596490154586699406e-01, 1.384211614588424510e-01, 1.077387966285959509e-01, 3.591860615050989081e-01, 6.592562256390811504e-01, 1.367660281064359551e-01, 8.674687958234770235e-01, 6.000230195625314566e-01, 4.856162437880176541e-01, 4.941743168116378704e-01, 1.285268508822144662e-01, 2.017408915604677055e-01, 1.227133128091009162e-01, 1.388557075578551181e-01, 8.025128307056235422e-02, 9.386179953321251990e-01, 6.424086215676100275e-01, 6.348288816646371346e-01, 6.343727458998416058e-01, 7.610472321006720442e-01, 1.095827153095753626e-01, 7.752533780589738743e-01, 3.196973361021014370e-01, 3.419741679536419388e-01, 4.519797558649273350e-01, 1.164531726824186708e-01, 9.769234660144555660e-01, 6.254546030874645890e-01, 9.314982939137443907e-01, 7.393656870343787713e-01, 4.765563339923686303e-01, 1.604648709329694126e-02, 5.692437681866753252e-01, 8.480275550460970591e-01, 9.808061080397323384e-01, 5.164825670954139580e-01, 8.134694974181398697e-02, 8.519506819182172119e-01, 2.835176488135319750e-01, 4.026916045884468831e-01, 9.170690207268912264e-01, 7.279779992153888324e-02, 8.673444392831923810e-01, 5.251681978906876935e-01, 8.197697546113931477e-02, 7.087734494620664960e-02, 5.034848207991469149e-01, 2.730532725332633914e-01, 4.162597155850816799e-01, 1.353745665230978446e-01, 8.497441030862362688e-02, 3.021102971983451457e-01, 9.433013093758593204e-01, 5.263166488957549127e-02, 4.683166145557438598e-01, 8.532529359369126487e-01, 8.533636101622529280e-01, 1.373961769062275184e-01, 4.718437273715900271e-01, 4.867979648893310252e-01, 2.496032680027056860e-01, 7.863916240283809200e-01, 2.700379296917768679e-01, 6.976861747356518650e-01, 9.110692314816248860e-01, 4.635518912120843715e-02, 7.228853536530142898e-02, 7.267239939257025272e-01, 7.771968256114712981e-01, 3.856159133604117328e-02, 8.094674514481194905e-01, 9.153415810083339599e-01, 6.602341145230348207e-01, 4.735068707752926320e-01, 2.245443012553646478e-01, 7.576454916491515146e-01, 2.703597479961390437e-01, 7.060085348373607017e-01, 8.602350608852102898e-01, 8.390337509495199297e-01, 9.585800910798667474e-01, 3.284864253173755966e-01, 3.815981690859139852e-01, 2.512974763515405385e-01, 7.142021529685204095e-01, 2.948367409413946705e-01, 5.442100712921437156e-01, 3.618385762427475116e-01, 1.922157155089105063e-01, 5.997167937260522441e-01, 6.925927257400386061e-01, 8.866413691830853372e-01, 4.479597630097322813e-01, 4.912516524853042799e-01, 8.509930569187771354e-01, 3.384634602981272389e-01, 5.645781455205884924e-01, 8.712781200577028873e-01, 6.503360557029158606e-01, 2.939269630475025430e-01, 4.242784696222626217e-01, 7.675609321391198003e-01, 2.511037798821774691e-02, 3.652490468303464244e-01, 7.346443848478411143e-01, 3.786569890446287445e-01, 3.613077717258107446e-01, 2.575497535978373831e-01, 1.506339717561287206e-01, 5.895741288323075313e-01, 4.360168953766867250e-02, 6.502219671710018911e-01, 1.132942071275884338e-01, 9.591864389830568882e-01, 2.836548067611648904e-01, 1.857138284196563904e-01, 4.361113836021557888e-01, 6.359282478060721555e-01, 4.905522128858961217e-01, 7.689729675954383170e-01, 2.496268590225205475e-01, 7.466218795244597972e-01, 1.658722828159806817e-01, 7.964785054056647828e-01, 8.533215150276688421e-01, 4.924563589287550558e-02, 5.379739862782113580e-01, 9.463065681320306233e-01, 6.715309496907941045e-02, 1.865214718194221355e-01, 1.555995757436748859e-02, 9.492943546430510082e-01, 6.811426774823159391e-01, 6.713734770131476459e-01, 8.871679585710607885e-01, 1.389733883417273164e-01, 6.909235402038084173e-01, 6.116523404839745437e-01, 6.998791343600313519e-01, 6.665099878145949175e-01, 5.973046343339626363e-01, 1.303525337838734033e-01, 2.341509160876384665e-01, 6.515985768904434261e-01, 6.680319260848720520e-01, 1.287713536108929524e-01, 4.715492953341253735e-01, 3.129366788583794468e-01, 5.701621714941745855e-01, 8.202297229317073723e-01, 9.069270802815201371e-01, 2.538696877643560890e-01, 5.882729806426396646e-01, 3.886735676408893392e-01, 9.886374958369047450e-01, 5.717333417911986126e-01, 7.228168955316797151e-01, 3.348871752113752875e-01, 2.412859718305388201e-01, 7.683204886325137872e-01, 2.427040293436123208e-01, 4.108278990060990066e-01, 5.075872368989652050e-02, 9.362713087798838485e-01, 6.683754971891234797e-01, 3.748912752181071673e-01, 4.545097261563788571e-01, 8.124638013221320287e-01, 5.512865094172658686e-01, 4.138185337028236349e-02, 6.384650431321478026e-01, 3.766228787830117608e-01, 1.450327212253175180e-01, 1.620011145923378193e-01, 7.037134011349822638e-01, 9.545550137725006268e-01, 3.643603728284552368e-01, 2.566437756958203087e-01, 9.643529422529255601e-01, 1.881969920201850277e-01, 3.725228947931074619e-01, 8.814777445591682747e-01, 7.878441720150629601e-01, 6.473499708652944440e-01, 5.811027984430851001e-01, 1.960189893262610228e-01, 9.191453613528919320e-01, 3.501764576112147420e-01, 2.782814395010720365e-01, 5.100246493595191888e-01, 8.985983485128226089e-01, 6.206744538240435149e-01, 2.979931152386925408e-01, 2.080136867880222340e-01, 6.199669887846415844e-02, 5.929871841184762848e-01, 4.249777825934671904e-01, 9.784871811052568980e-01, 2.406476128933950909e-01, 2.855248482769918161e-01, 6.315555587307695173e-01, 9.821734396579256954e-01, 7.949483754897951338e-01, 6.551407233227629634e-01, 3.386618141068241661e-01, 1.485580137707357418e-01, 9.629810179177666907e-01, 5.715411668186294314e-01, 9.402391051725299265e-02, 2.119172097403488886e-01, 7.171805382237664839e-01, 3.807575270577998050e-01, 8.522439954934988293e-01, 3.870353515716160597e-01, 9.383720161758407619e-01, 2.800697500291820519e-01, 7.432726587771398830e-01, 9.824527368587028242e-01, 5.729303751401632061e-01, 3.214809642914850385e-01, 4.034448471607790521e-01, 1.587711450015516779e-01, 7.990682158222907061e-01, 9.660562075254219838e-01, 7.467451634289955509e-01, 2.091012236795239121e-01, 5.246313213427356015e-01, 5.066207678159665440e-01, 8.731289349857196402e-01, 3.182938454976468323e-01, 4.200265387316646226e-01, 6.666610075940095914e-01, 7.187328538855043414e-01, 9.682536505412053796e-01, 2.918625385387434434e-01, 7.752992134721873319e-01, 3.971311348956070297e-01, 9.571198444067500199e-01, 3.513194801410121082e-01, 1.746443405554205797e-01, 9.928659410398902319e-01, 1.076238170627819846e-01, 7.256941207890111878e-01, 9.788393903982938182e-01, 8.875187786354934438e-01, 8.121019916359849544e-01, 4.429617497663884684e-01, 1.198680297150625691e-02, 4.927376918762619434e-02, 3.844432857724671554e-02, 3.107788922621849137e-01, 7.823440160038754032e-02, 6.087770637952903963e-01, 4.598193040061013814e-01, 1.379624060845806854e-01, 6.871894627621058516e-02, 9.316192736731837565e-01, 5.757238090974791112e-01, 8.442957995426481066e-01, 9.701513844317632973e-01, 1.553897220141492730e-01, 3.270070977585642358e-01, 5.904660959691832023e-01, 2.189472910261160976e-01, 2.266686568991485573e-01, 2.081237281319347210e-01, 8.476418607053956000e-01, 6.703443635923405086e-01, 3.553430986947765935e-01, 8.229015002782184007e-01, 3.967748934520205035e-04, 7.791955229956292195e-01, 9.762269624508382870e-01, 7.816931908803093076e-01, 3.345691602971369027e-01, 2.498241260390212382e-01, 1.283575553547157411e-02, 1.479119595576271484e-01, 7.315143923349229915e-01, 3.113816668147521560e-01, 6.147241127220898216e-02, 4.091744422576633067e-01, 4.469170977056635130e-01, 5.255727255750925614e-02, 6.007887272629938158e-01, 8.891581466030160641e-01, 7.071989910502345378e-01, 5.689801066891765347e-01, 7.287289031850999743e-01, 4.783785491009037161e-01, 3.886250830744544804e-02, 3.633471994294906193e-01, 3.899542077226104131e-01, 8.751604830308411520e-01, 8.060839953666013580e-01, 6.931716444379193431e-01, 8.197110193049009785e-01, 2.535843677222665016e-01, 4.492974603985585569e-01, 9.885736089685710493e-01, 2.443112859048644780e-01, 6.147240149530288633e-01, 4.988779795604464384e-01, 4.905451479018609895e-01, 4.331162629664594421e-01, 5.108134575866781768e-01, 5.686524861979516121e-01, 4.560090445966798467e-01, 9.929093380515225942e-01, 7.303770420207621461e-01, 5.670630854801653742e-01, 4.598289530923783119e-01, 5.121513757439880576e-01, 7.631507527911458588e-01, 9.661563889060551524e-01, 8.908056879936202543e-01, 1.690920246634566582e-01, 4.351979076974198390e-01, 6.460092617243352597e-01, 9.478583810974632318e-01, 3.058209366287566525e-02, 6.566136535952665776e-01, 3.359351927745066191e-02, 7.242723001806656846e-01, 7.949823547466936535e-01, 6.684892302748802750e-01, 4.420547950671883108e-01, 1.505934962944858180e-01, 4.849562103937239410e-01, 7.806715975462227841e-02, 5.857150005212065080e-01, 7.220361129148517021e-01, 3.087375697294851840e-01, 1.232532276806367344e-01, 1.106450177262090911e-02, 3.614311673093509314e-01, 7.275824576731225735e-01, 1.741706788140782447e-01, 1.196596513072385459e-01, 1.543725093504245971e-01, 2.978735716809672793e-02, 5.368240682213127890e-01, 8.332904240230195603e-01, 7.160559208920839191e-01, 1.160388597417856826e-01, 5.853349781316659062e-01, 6.942784934760042326e-01, 5.036985995166336494e-01, 4.230360598180752385e-01, 5.967034471163381593e-01, 7.747215320068842059e-01, 4.670597362513875805e-01, 7.799284365844911804e-01, 5.972207044647722674e-01, 7.635086184557063893e-01, 9.276393004067585712e-01, 1.594428121821730160e-01, 8.874196883562169846e-01, 3.958491634103184498e-01, 4.860335638104404388e-02, 1.120111816256857823e-01, 2.638179260052870290e-01, 2.419823315989267365e-01, 6.829731028840196894e-01, 7.537889769569797727e-01, 8.917972413155061950e-01, 4.005389088328353275e-01, 9.506149581260228132e-01, 4.839764403674567950e-01, 8.423920494423237093e-01, 3.500208506960074684e-01, 2.069769334771129621e-01, 1.538060466908089674e-01, 3.320792077753335209e-02, 7.957957547700971190e-01, 9.388553058485675507e-02, 8.992359869949287932e-01, 3.187118439948125603e-01, 7.950702110899230401e-01, 3.313988191297811969e-01, 8.497269413383969072e-02, 9.233152333429665015e-01, 5.356212330415373035e-01, 9.706877696532759114e-02, 7.445112224910369614e-01, 4.723010560962740551e-02, 9.799892780875735232e-01, 4.691119120254874097e-01, 2.944479444123483947e-01, 2.967716248738039297e-01, 9.522357033852817398e-01, 5.220982921857106884e-01, 8.058234870422528173e-01, 4.891565249013927336e-02, 5.675958759970266554e-01, 7.164184888883970981e-01, 7.271577209109271189e-01, 9.519118044989106631e-01, 2.085079450207663054e-01, 2.237841926487322552e-01, 6.804303025897912027e-01, 9.573114784480108996e-01, 3.032965194903989303e-01, 7.310040941608977882e-02, 8.939832756559047411e-01, 2.042471532217623176e-01, 8.135210175247759024e-01, 3.480677880064493857e-01, 3.504806116741333161e-02, 3.829663532124637504e-01, 2.547825336825346731e-01, 5.205205508844945594e-01, 5.613533712292545497e-01, 4.355743861997478095e-01, 2.318464128352034637e-01, 5.748045684129859945e-01, 1.517979971196346256e-01, 9.492308007548309057e-01, 9.525156687465245742e-02, 9.457366284169603787e-01, 6.773591312120088581e-01, 7.737456687690996704e-01, 7.854911060751333940e-01, 7.333205260711938012e-01, 3.949904419747040096e-01, 8.931291178653855134e-01, 1.898103278511183434e-01, 5.946675861709520283e-02, 3.080515012568704192e-01, 1.743933260710427147e-02, 7.412382724023360847e-01, 9.843094432831098750e-01, 3.162353720167883631e-01, 5.516602535533803309e-01, 9.679399990661947673e-01, 4.395054630664971818e-01, 9.862211812396477484e-01, 6.154743983916610706e-01, 4.757154118640614104e-01, 5.472127195113425380e-01, 4.459553649452254187e-01, 6.840749762859261729e-01, 1.517076537415022741e-01, 4.774767973870635007e-01, 2.982635859638756992e-01, 9.373760187149577927e-01, 2.539599270053518043e-01, 8.079809225950811413e-01, 8.161405547162179364e-01, 4.341731362937811256e-01, 7.557870073947452472e-01, 5.352177936313371465e-01, 7.617430312888876509e-01, 6.947213086614487110e-02, 5.797495141454406253e-01, 3.928995213614741577e-02, 9.445545529596734990e-01, 5.700811602028620084e-02, 2.058792991863578059e-01, 2.064872031294771038e-01, 3.116574936576400057e-01, 2.062374388149844917e-01, 8.226576731880380633e-01, 6.086239466234848461e-01, 7.748565589585639790e-01, 8.540687057568111529e-01, 8.332198890995398122e-01, 9.923640354657931040e-01, 5.057431805204248843e-01, 7.885483046948992270e-01, 5.426339587155716293e-01, 4.440879789343392670e-01, 7.534179119935880964e-01, 3.478155764737243805e-02, 9.753677593920351274e-01, 6.876120895401161004e-01, 3.845270728929778281e-01, 1.754078524920114346e-01, 2.670858531890378876e-02, 6.598250054768035611e-01, 3.383239793401581763e-01, 3.484868759750711087e-01, 8.458390474482959664e-01, 1.777402036812376906e-01, 3.380997532983658904e-01, 3.214164670911461852e-01, 4.251186746017159290e-01, 5.069455661949068270e-01, 8.508810166336457925e-01, 8.358115839590058993e-01, 8.828780005577141488e-01, 9.277540099397502127e-01, 6.282046402258604223e-01, 3.377148288846661128e-02, 2.793354134708422309e-01, 9.962728164505205708e-01, 9.346289120950209695e-01, 4.669353265043392487e-02, 6.103268353625898035e-01, 1.778824291442295535e-01, 9.174261080128630619e-01, 4.326647380800191511e-01, 8.987578144767700561e-01, 8.866566684531596021e-01, 8.996573960146101445e-01, 2.501990166325282483e-01, 5.518602140858652749e-02, 6.070065710991582320e-01, 2.995099464764096608e-01, 1.350164577823350087e-01, 7.534751466420026578e-01, 6.474297953087728708e-01, 4.223674010966826931e-01, 6.035765987875556515e-01, 1.633395558140488257e-01, 3.537940388117110091e-01, 8.676022603583718462e-01, 8.060324163427819988e-01, 8.926221988288027820e-01, 3.695209870300988353e-01, 5.380435214982520753e-01, 1.676313281660590515e-01, 5.471296554252595978e-01, 5.786559644530617774e-01, 1.685719152466380044e-01, 9.588342425347029518e-01, 2.058216970948485158e-01, 5.250149708327782605e-01, 7.685296910828663952e-01, 1.209142737927585837e-01, 1.080479916527774670e-01, 1.403275796729098190e-01, 2.400191205383821469e-01, 1.670768229977637187e-01, 3.679021979807302611e-01, 5.241716918514234269e-01, 6.984198224981256198e-01, 7.211068215783339452e-01, 5.811722199164809366e-01, 5.712349182253568802e-01, 5.278640486565151502e-01, 2.508113910711199379e-01, 9.200695009453252471e-01, 5.231253434985363437e-01, 4.832676075995874232e-01, 6.248903369128900875e-01, 8.852059078132196168e-01, 8.684866374586847071e-01, 6.381329271756832622e-01, 1.079351884707065723e-01, 7.310627710252729505e-01, 2.730744043397716481e-01, 8.963096033943842578e-01, 6.117082163378951831e-01, 6.121719268935248426e-01, 2.215538280147308914e-01, 8.298560777912448172e-01, 1.107684547665193503e-02, 1.074022680355167861e-02, 7.866939648238656657e-01, 3.701019810302728086e-01, 9.872975185231237516e-01, 7.272201039553608526e-01, 1.830192098912094001e-01, 3.441361652332280419e-01, 8.470392438286984405e-01, 8.423481083347603704e-01, 7.566498579380441514e-02, 5.516355572178520683e-01, 8.057459245710986429e-02, 8.772884699130057973e-01, 7.363683386377630757e-01, 1.789538645015148477e-01, 4.979299728621779386e-01, 5.435834870963478505e-01, 7.100229256164751757e-01, 5.220260847706447577e-02, 6.085696967241258637e-01, 8.309102598285426078e-01, 5.960803940724472838e-01, 3.036424348105065674e-01, 1.681796397132777621e-01, 1.214797931040019208e-01, 7.549452103303725403e-01, 5.536545186277750386e-01, 6.284746393132482206e-03, 9.978736292249887896e-01, 4.380904284788231240e-01, 4.455686074328016333e-01, 2.010103701027935730e-01, 4.478148050539427216e-01, 4.570891649010927482e-01, 3.801078014544046479e-01, 1.592796702557943422e-01, 2.481993135305753384e-01, 4.624164558867891461e-01, 5.001216205801588544e-01, 6.240254274062505546e-01, 9.317031676972479248e-01, 5.697000894755588352e-01, 3.265055563851213538e-01, 3.258345915511455526e-02, 8.920679656130128254e-01, 5.381439597893293847e-01, 5.202810575945475691e-01, 7.143896706429916366e-01, 9.148449390692016125e-01, 7.536387144899405754e-01, 8.320325018894318969e-01, 1.163835422488426197e-01, 7.165831017391859348e-01, 8.822027314059223135e-01, 3.096549208165891298e-01, 6.181112331337869081e-01, 7.861942010471469899e-01, 1.569023637247931036e-01, 8.787073348388706462e-01, 5.736062167691943214e-01, 5.674951591648568217e-01, 6.746576042335591383e-01, 1.246840455758583127e-01, 1.457777204461948861e-01, 6.540617688535388385e-01, 4.406135104236088562e-01, 8.730124094539447599e-01, 2.686272880112208217e-01, 8.449228571252364040e-01, 5.273692722193749072e-01, 1.323682472405447947e-03, 7.456595459483442712e-01, 5.495324744831604075e-02, 6.873570291040212998e-01, 2.050475235845154176e-01, 2.637668449085068811e-01, 5.571406148299993255e-01, 8.672020297447945447e-01, 2.906900147024117365e-01, 9.517863347432130583e-01, 4.727016910268048711e-01, 8.437522570256518195e-01, 1.140538556895382971e-01, 6.321584055170600402e-01, 9.554387345619388405e-01, 4.183108296000906390e-01, 7.195619293244237547e-01, 5.715469557684729196e-01, 1.768158263114218420e-01, 9.247237429049997015e-01, 1.789421883305176986e-01, 7.288677059601343933e-01, 7.461795214168531754e-01, 2.744319719080959841e-01, 5.430900921238446255e-01, 8.049743357207256311e-01, 5.563301607458517317e-01, 6.842238205665345241e-01, 3.174046697364523162e-01, 1.861420864111492934e-01, 6.920997613621316935e-01, 1.597223464538154725e-01, 1.659789140814552436e-02, 8.882996169095865868e-01, 6.233044865471422114e-01, 6.434093310798510990e-01, 3.806584423178686616e-01, 6.099693647278601194e-01, 6.446333872564897760e-01, 9.531338068676220576e-01, 3.826225695361989976e-02, 9.359794474429388167e-01, 9.703242355610013359e-01, 1.703206942951745323e-02, 7.254872708111556046e-01, 8.815518712455240324e-01, 5.128247153532005109e-01, 1.009255514249960822e-01, 4.441695223659557490e-01, 6.705025643430432281e-01, 7.149639987427068855e-01, 3.087845083814594882e-01, 3.500146225598486649e-01, 9.258862582576634637e-01, 3.020608106292814177e-01, 4.331266899328160558e-01, 3.462998368639528812e-01, 6.166339110118447264e-01, 7.231690571391459210e-01, 9.114493101478451376e-01, 5.860310921572810944e-02, 8.610934686374938085e-01, 6.863726328240886687e-01, 6.082805095315544502e-02, 5.237731114589349035e-01, 5.063001352076302863e-01, 6.386510154214857238e-01, 2.265757979104782160e-01, 3.924599917628228130e-01, 4.742966301977638577e-01, 7.111966355614982582e-01, 1.624884163292664163e-02, 1.234588050504254741e-01, 1.104044181479846148e-01, 6.102121087437137881e-01, 4.518335569364719806e-01, 5.856133983721143466e-01, 1.606942631129576471e-01, 1.673370827696501195e-01, 8.437518004708490782e-01, 7.366485550145248640e-01, 4.335019948667904743e-01, 2.543861423138912836e-01, 1.797773379746370470e-01, 6.451972175953204491e-01, 9.716207204938028807e-01, 1.879715307449699724e-01, 6.131109594451544798e-02, 9.992011139956054055e-01, 2.975521808848292649e-01, 2.475724510753360696e-01, 6.751238497357593404e-01, 4.322993308571501103e-01, 3.504629092518387612e-01, 4.087877237682493448e-01, 5.118839964662448283e-01, 7.006631007654668952e-01, 7.588156340638811947e-01, 6.013973133143584171e-01, 3.696438126701654947e-01, 7.325720491903431331e-01, 9.890182055722832599e-01, 6.540195457024260417e-01, 5.574906345325641999e-01, 8.631809825578181661e-01, 1.029321138437185729e-01, 3.909657004573880990e-01, 2.675922250432714034e-01, 9.519764257202076307e-02, 6.755117591753934114e-01, 5.772869072182118533e-02, 2.952186970294530810e-01, 1.821071049491310712e-01, 2.943585263372330840e-01, 7.216389663809511523e-01, 9.473821837616599462e-01, 4.192842308625602810e-01, 4.766614492657246238e-01, 1.579560167359063405e-01, 7.900231496529953878e-02, 5.661358669167599889e-01, 2.788492737862371396e-01, 7.550733644410836387e-01, 5.197243994041744752e-01, 1.238524672912007657e-01, 8.484494268892478486e-02, 8.046471673906264721e-01, 6.038985272476972144e-01, 2.010924833391031785e-01, 3.855062124248351818e-01, 2.537370725519246251e-01, 9.439037197262637457e-01, 3.961094333738648943e-01, 7.685449549191262220e-01, 1.189072464614477492e-01, 2.343316942946112591e-01, 9.941040079361751491e-01, 9.991906086263620257e-02, 6.589041555672806583e-01, 8.749816951237583407e-01, 5.712866981173898677e-03, 7.128256039932659993e-01, 4.373614655654604055e-01, 1.659108764152069926e-01, 8.997994301695672048e-01, 6.046776221796050788e-01, 7.753904035270307027e-01, 6.553586212103299502e-01, 7.183957448743090168e-01, 7.903782900033222703e-01, 8.635957705243767490e-01, 9.536330358041430477e-01, 4.961823893053626255e-01, 9.513957470025964369e-01, 8.222935218823368420e-01, 2.130444594373893663e-01, 5.010473755543098928e-01, 9.516073276062799735e-01, 4.999111656326016284e-01, 9.870485011545966358e-01, 2.449458506709122074e-01, 6.684246261976888315e-01, 3.750516960532960242e-01, 4.360666344098738656e-01, 2.975003281124734555e-01, 8.813491078396047396e-01, 4.151582410048419436e-01, 9.516940590921904031e-01, 5.751675700737829411e-01, 3.858081302126968870e-01, 6.384580862481696872e-01, 4.780108350998623634e-01, 3.471900641979973612e-01, 2.372305452821120708e-01, 2.996118325502334367e-01, 7.639589658725497445e-01, 4.495766849687442557e-01, 6.467686812867131652e-01, 1.636339215294177751e-01, 3.698441930822047308e-01, 6.327244467602868294e-01, 3.683288550551004348e-01, 5.321616036126386451e-01, 4.142926974191944445e-01, 2.004945380993431447e-01, 4.730523055912295716e-01, 8.952559204334614718e-01, 6.019541428087147317e-01, 4.181770871311956128e-01, 7.122322303040209412e-01, 2.909672760518741130e-01, 7.833689774696517283e-01, 2.269820786981548988e-01, 5.726519418061244426e-01, 5.354244735387603260e-01, 4.348889308114565755e-01, 8.599903684868959175e-01, 9.614082359582375448e-01, 9.566070877535830519e-01, 6.420165689598559267e-01, 6.776213939871746916e-01, 7.566427958462380587e-01, 2.039744676452930894e-01, 5.797775967456496593e-01, 3.027426073403087156e-02, 1.054481352965653124e-01, 1.630521565380339821e-01, 1.069203160034022937e-01, 2.590779002163681177e-01, 9.387169883826722294e-02, 7.749212886013810975e-01, 6.236307286507767333e-01, 3.493513644745550595e-01, 4.918379232770671017e-01, 8.526082481156480597e-01, 6.664720358594142802e-01, 4.357629959840541578e-01, 3.854887174057120558e-01, 7.760610342145045637e-01, 7.384706669555292091e-01, 5.521017481906391744e-01, 2.797663446138289878e-01, 5.612252003402938838e-01, 5.344810946674662944e-01, 3.954195319422277866e-01, 1.169861187022956800e-01, 7.410959077416672258e-01, 4.492133502409196844e-01, 9.026620577995150274e-01, 4.787467937282041675e-01, 1.479263133052827195e-01, 2.848101633509475539e-02, 8.334736929130860394e-01, 7.754398524575059626e-02, 1.523984307090443246e-01, 7.759674412965554546e-02, 2.337783251168427112e-01, 2.447489608432992236e-01, 9.316876313552803213e-01, 1.705651996581669383e-01, 4.558296839475277796e-04, 7.709196513685285801e-01, 9.218530554673266542e-01, 9.347163437849910217e-01, 2.482332075515920056e-01, 3.306086838420082552e-01, 5.441586542788512393e-01, 8.805496740081359963e-01, 3.521106491945494299e-01, 5.395014239294931846e-01, 9.514849811810862645e-01, 4.965083421428425625e-01, 2.322503496103933973e-01, 8.934709786409119614e-01, 9.837322153385275048e-01, 9.526595789912389867e-01, 9.510054302254106195e-01, 2.744362296166267257e-01, 5.911612330900906098e-01, 8.351928028075162880e-01, 1.519050918641622616e-01, 7.944779210542370906e-01, 5.497693369797080898e-01, 4.907805845213515927e-01, 7.576432519003866162e-01, 2.261205653935250692e-01, 3.942397014919131470e-02, 3.793578589208135288e-01, 6.614335600670795401e-01, 4.255006963997066266e-02, 9.189797015979752626e-01, 1.697359394035392322e-01, 9.773322889094157029e-01, 1.775431087229656368e-01, 4.838117748246108518e-01, 4.493015867262955543e-01, 4.392535068163482825e-01, 4.763618263113668094e-01, 6.924996761392470113e-01, 6.855290474287787372e-01, 6.149526620881116123e-01, 9.216698969089147653e-01, 7.578996890370094386e-01, 4.107714333623794789e-01, 4.669212211358923503e-01, 7.380475766471447097e-01, 9.333593281801059183e-01, 4.914612558723203684e-01, 8.929909908902514681e-01, 4.646989150444871264e-01, 7.001614512949518865e-01, 1.206271751955443339e-01, 8.855545473621958541e-01, 5.770525250756001201e-01, 4.412511192208691813e-01, 7.269987309724178504e-01, 2.428510410450387264e-02, 9.666852778986596839e-02, 3.256816808485535897e-01, 9.055305797292325654e-01, 4.374449807456000094e-01, 2.118141296623613293e-02, 8.759329411986663816e-01, 6.887471053115719055e-01, 2.186979235742927963e-01, 6.648924122426158601e-01, 9.844134521847780483e-01, 3.353794918416159176e-01, 5.376582276146559813e-01, 7.749509370167615430e-01, 5.622569536887970232e-01, 9.307372057148826094e-01, 2.011948195686093510e-01, 3.082223224175497100e-01, 5.215715885758184234e-01, 8.574015254140818776e-01, 4.230264097551267866e-01, 7.970415542832216538e-01, 9.702767812262563796e-01, 7.677846717356970885e-01, 6.602777537500789107e-01, 7.828138492856987485e-01, 2.530064951398349749e-01, 3.430381815338114093e-02, 2.533051822322731628e-01, 1.718386054005300589e-01, 2.366205890452029448e-01, 7.039751264303133471e-01, 1.017845976245947415e-01, 6.350900278385365749e-02, 1.900475879081530428e-01, 1.329824100433352196e-01, 5.746364080571896293e-01, 7.316662314556970914e-01, 3.391510998575958946e-01, 7.092693848812529067e-01, 4.721647361938838827e-01, 9.926555005594345227e-02, 7.525603158267466508e-01, 3.879084541358749361e-01, 3.258528015953445212e-01, 4.939624607383099053e-01, 8.282668582001193602e-01, 2.570810851904190564e-01, 8.424260033608016451e-01, 5.364012352411463569e-01, 1.579174323361551002e-01, 3.253349085963593845e-01, 5.608008311985757111e-01, 7.890684735538535666e-01, 6.207510462678833552e-01, 9.702061335303017175e-01, 9.514665187210785691e-01, 6.851943801789259214e-02, 6.102893715734363234e-01, 5.635476222286974757e-01, 9.646879889073574077e-01, 7.722380229624365988e-01, 1.532021149194280618e-01, 7.165741792504625174e-01, 9.373444160549705417e-01, 7.710963759946489748e-01, 9.696239021575785433e-01, 6.929821857903011306e-01, 4.828948567361289190e-01, 7.340973145539102518e-01, 4.349347987889569112e-01, 9.168750397333794711e-01, 4.743192546181788927e-02, 8.865393747599548124e-01, 9.520365025058483699e-01, 2.451746982619323612e-01, 6.118164519019121395e-01, 3.552170761711265778e-01, 7.620246470059083288e-01, 8.080671413495537081e-01, 2.396543489248880165e-01, 8.244221152595408997e-01, 7.615235397573175483e-03, 7.881736581932097252e-01, 3.148879557969815890e-01, 4.957240017501542417e-01, 5.764051642268943620e-01, 1.414757148473713422e-01, 4.328371864277710118e-02, 7.671095279382658116e-01, 8.905847224144118612e-02, 6.033731341194092934e-01, 2.567671039521065776e-02, 8.207463557191562176e-01, 8.169908002677189751e-01, 7.546640558798923815e-01, 9.328883536632927020e-01, 7.846551829204004846e-01, 5.065864391287394630e-01, 3.644912355045682451e-01, 3.703378451492820300e-01, 6.474504572574927286e-01, 2.861841754777942337e-01, 4.745718206931242023e-01, 5.133691493574136372e-02, 9.246562584031492449e-01, 8.716411427932038158e-01, 7.591419168351615232e-01, 9.516503118578241160e-01, 7.707745105208222425e-01, 2.848488405060294326e-01, 1.839271288445543662e-01, 2.952652008816865070e-01, 7.865840305484039785e-01, 8.264118264757720489e-01, 6.012126539847792994e-01, 2.531714741748321562e-01, 8.056884425924674131e-01, 8.424404565920042831e-01, 8.532716356921285147e-03, 4.852794125935093184e-01, 2.049091545249525359e-01, 8.902159124057772432e-01, 6.518930606055639565e-01, 9.461747922656091880e-01, 5.228762093882259876e-01, 7.308893638190275821e-01, 5.780625144572616447e-01, 6.512361294697404102e-01, 5.617039316782992397e-01, 8.172500916852312169e-01, 9.034931126792280498e-01, 3.608617255963013637e-01, 5.905416424633763706e-01, 8.360544305057663328e-01, 3.695374726932313392e-01, 8.941877646067090124e-01, 4.067526493640554186e-01, 9.003338243708761679e-01, 2.599835129731266070e-01, 1.570828095436098693e-01, 8.024052612458576483e-02, 7.985735650674136155e-01, 1.423683666510928425e-01, 8.913481976948660623e-01, 1.062019732228069585e-01, 5.281495171633063812e-01, 6.299431324412985145e-02, 5.195253769606921201e-01, 8.857961660852056163e-01, 5.821129649428675723e-01, 1.010436754579879248e-01, 7.088289846792300564e-01, 7.645927814982477200e-01, 1.773047352562626133e-01, 5.259101021895619121e-01, 3.885219810247059757e-01, 9.446789117350169462e-01, 7.402866897846370753e-01, 7.086247824941691587e-01, 4.907618581377953815e-01, 5.342320261936938097e-01, 1.573310860694825675e-01, 7.783333649838662938e-01, 1.035499091733918103e-01, 8.627136346400141598e-01, 8.349903780568180833e-01, 1.490327983593184580e-01, 6.995481859726149221e-01, 4.329779007253563017e-01, 7.525166006499597326e-01, 6.497107329962027444e-01, 3.555898251782427799e-01, 7.115072009793459440e-01, 9.356779921433071578e-01, 4.996101639349003615e-02, 3.119349185203944552e-01, 4.511987943646408872e-01, 4.738252975157823954e-01, 9.702073363350383062e-01, 2.709180129681859964e-02, 4.802842055089672768e-01, 2.848685631624318648e-01, 1.960714127398732742e-02, 7.924472070522141642e-01, 3.193069021977223421e-01, 9.859852292102484483e-01, 5.218557123986475865e-01, 2.454422832682616185e-01, 9.868191823978562649e-01, 3.466438670420038393e-01, 9.028368255652530205e-02, 3.495504414097346801e-01, 7.195051553937632516e-01, 8.597497581163714431e-01, 5.894019940525989654e-01, 1.791243941688207830e-01, 9.417890090391046742e-01, 8.014219647727606199e-01, 4.860131322849417512e-02, 9.669735278584432048e-02, 8.439225339642155710e-01, 6.265971398666891901e-01, 3.251485157172487872e-01, 9.225949892874862890e-02, 5.072053619889256293e-01, 7.780839829226269266e-01, 9.286830164020111189e-01, 1.768575685614131865e-01, 4.908004706989228527e-01, 3.745770859919645979e-01, 4.462442228724638471e-01, 3.127359717485094226e-01, 3.738187431349603296e-01, 6.125770517541584415e-01, 5.863480110464379669e-01, 6.812881141473264845e-01, 3.380729407218097671e-01, 3.206308315289927435e-01, 1.622316951052436007e-01, 3.422804574822769785e-01, 4.360731438909940146e-03, 9.820183012256331612e-01, 2.075456289528435361e-01, 3.893191471108136126e-01, 8.473653981472713259e-02, 7.126310136621926139e-01, 8.392679910623097594e-01, 2.495554897631606373e-01, 3.585835355365495081e-02, 9.445149434578709036e-01, 5.628007204189251489e-01, 4.891082188930273578e-01, 2.874264678250464389e-01, 4.383964438619479265e-01, 4.346254942330662896e-02, 5.286068333282468723e-01, 4.492176174685842405e-01, 4.568014760615038972e-01, 5.280238085821549188e-01, 4.427989766102327085e-01, 5.848433872606979556e-01, 3.304922789433639707e-01, 2.791406346252912618e-01, 3.068088936571790049e-01, 5.597247192662122561e-01, 7.848758528924597577e-01, 6.005938520291709964e-02, 2.889781011484390261e-01, 5.269090573767819530e-01, 1.914559217079942199e-01, 8.080771392162483524e-01, 7.809643154566229262e-01, 9.470970627716764900e-01, 6.084743856679323271e-01, 9.827500872919099351e-01, 2.382819501311934235e-02, 2.349841760198734253e-01, 6.558138706059565282e-01, 6.302199301550827082e-01, 9.235004786342481120e-01, 6.644969491516809768e-02, 6.546501122010695006e-01, 8.026092555586383792e-01, 1.973900796111653366e-01, 3.107697349846146317e-01, 1.014805834428403747e-01, 1.161569463363703592e-01, 4.384817663882648042e-01, 1.854831848743279110e-01, 7.959472582270403773e-01, 4.578397134106182986e-01, 4.680144270223172975e-02, 2.293470764499169479e-01, 7.143221696179429259e-01, 3.094625722826868097e-01, 7.420498208845184296e-01, 6.287581761003663283e-01, 4.569309964288116865e-01, 7.960655185808809264e-01, 4.936158557358503174e-01, 4.624782205575837524e-01, 7.781353649836926234e-01, 3.945856113570608836e-01, 4.905852813665043111e-01, 7.163288371502977148e-01, 5.805808845610672675e-01, 3.725008996476373846e-01, 6.927288964011080186e-01, 4.390534201602053765e-01, 7.717363003513266762e-01, 8.450641420778780555e-01, 5.057806501099654239e-02, 2.587717062144875291e-01, 9.573004621578790063e-01, 5.402592158339082351e-01, 7.012442393778728356e-01, 3.089487218734696117e-01, 7.832537331488986787e-01, 7.734489321578380538e-01, 7.747690810464420430e-01, 8.786052429343624848e-01, 1.338767728225641607e-01, 5.216347596756956140e-01, 1.182820080503448473e-01, 3.223427205188060529e-02, 4.991346140469637427e-01, 4.591469639738365860e-01, 3.174969663454284552e-01, 3.843307114533441315e-01, 1.157429409538088538e-01, 5.374311602599932680e-01, 7.984586378627935854e-01, 1.902072203645406578e-01, 5.732562412973915000e-01, 9.504427252101762535e-01, 1.127043711734336401e-01, 7.431992237376358057e-01, 3.003715658811543371e-02, 2.538830203703984489e-01, 1.695231380602541249e-01, 2.803321263708901112e-01, 6.747939062024517209e-01, 6.140254787031700079e-02, 6.299599565931790490e-01, 3.584179806907229482e-01, 9.666445187990329035e-01, 7.908942851034221899e-01, 8.799528921427021144e-01, 2.902192684792764266e-01, 3.385408104446384625e-01, 7.774985687348608954e-01, 8.249255521749222497e-01, 7.770852321163032039e-01, 8.516845240352444169e-01, 4.562575846373155830e-01, 4.712086237888886142e-01, 4.386055372457341450e-01, 8.869546838983329851e-01, 3.283741679822897025e-02, 3.128287799863563312e-01, 7.413282639869449575e-01, 2.375241821052987146e-01, 6.891112195953676967e-01, 1.559978939073294324e-01, 5.970660436138353067e-01, 3.035747851664961638e-01, 6.568229060054541213e-01, 4.463137492737346834e-01, 4.297173954263248663e-01, 8.576353282374513665e-01, 3.600845445710079695e-01, 7.749585916804863084e-02, 7.719412467400846856e-01, 5.065501534209461143e-01, 9.165393579028577875e-01, 9.578754311672811328e-01, 4.643061226266084751e-01, 6.228333012476164887e-01, 9.724494901810371017e-01, 3.279811217053102412e-01, 2.010694469902576387e-01, 6.865683589893030181e-01, 5.660383708245150247e-01, 9.208344386657858482e-01, 9.096643185993281699e-01, 9.813922881181664781e-01, 6.151595508441833893e-01, 6.718145028065032331e-01, 9.648190657906554613e-01, 1.373444411691407060e-02, 7.368532928195715703e-01, 8.067851137031638586e-01, 4.310268423097699531e-01, 2.335280307548990852e-01, 2.040869445111973546e-01, 8.133402277644394829e-01, 6.628126809063772384e-01, 7.184224932182252665e-01, 9.909962731922275503e-02, 9.598736686569310228e-01, 9.316562008614325263e-01, 6.124537888330838092e-02, 6.551344150004941858e-01, 3.182757138182269463e-01, 3.211354218845147157e-01, 1.192468657298512008e-01, 7.291751298012466576e-01, 1.356659739697857470e-01, 2.659327645204873636e-01, 8.879933020568764324e-01, 1.797637255109257592e-01, 9.513139679939875970e-01, 3.867076995544577733e-01, 3.742343442788541030e-01, 1.392451077579162644e-02, 1.458738858010826256e-01, 5.066710020061397923e-01, 6.194951740684668806e-01, 1.639500343154234874e-01, 5.562618092428345262e-01, 7.282740109425465125e-01, 8.889678073595974617e-01, 7.034348592425170299e-01, 3.117282227813535922e-01, 6.174444264645715386e-01, 4.863162033106320226e-01, 3.046243230325503329e-02, 5.368788740477401511e-01, 8.360348755131999932e-01, 8.504775531432764435e-01, 2.143883732430729855e-02, 6.743904965654634598e-01, 9.906041718131037843e-01, 7.076758561274117953e-01, 3.516804309969008835e-01, 7.299203161016784014e-01, 3.402457952320949164e-01, 7.599303113758055783e-01, 5.210474468502173107e-01, 1.331584428195209668e-01, 7.153984124617849272e-01, 1.388402609363547854e-02, 8.116174577699011294e-01, 7.640455331293478647e-01, 3.616365369231675508e-01, 4.065704259299581236e-01, 8.393625902907452252e-01, 6.753941376178065337e-01, 8.180790723867418235e-01, 5.067042123927462116e-01, 7.851633351624933699e-01, 3.695313179323443664e-02, 6.224966643842608782e-01, 8.294576466328941189e-01, 1.997919377904843474e-01, 1.622115615195180993e-01, 7.500290601390728895e-01, 4.643179555688415894e-01, 5.457494883881783831e-01, 5.211380914600403091e-01, 4.581192755100977343e-01, 9.557485773643211724e-01, 3.048782397833763036e-01, 9.721864335706711380e-01, 4.368169167483841875e-01, 6.217138741486451237e-02, 5.777287493211955560e-01, 7.201764719481759114e-01, 7.001662896317861762e-01, 4.274414569060803193e-01, 1.028932623131873642e-01, 5.175443951934061149e-01, 8.556448841046569997e-01, 1.030230190220218778e-01, 3.054091874150528518e-01, 1.135237763322907156e-01, 2.248469416326263071e-01, 6.237077664045478365e-01, 5.795420991236699404e-01, 7.993472568050266069e-01, 6.125422706587052568e-01, 3.122974022475566436e-01, 3.138963787727565014e-01, 5.395794018850512686e-01, 8.367851750084298601e-01, 3.740727311400990907e-01, 6.014431863389151367e-01, 6.846332307056790523e-02, 9.060289266181321965e-02, 5.708311382720879790e-01, 6.391515734323717224e-01, 6.898254172828214292e-01, 3.198128629380743715e-01, 5.848640936405551105e-02, 4.683333491426513451e-01, 7.862747344549315676e-01, 4.879993438132301103e-02, 9.581925255087699878e-01, 2.464153701118124429e-01, 1.376417102561034445e-01, 2.057657025720011912e-01, 6.141579926788156563e-01, 9.456877844244259146e-01, 1.337699086299757624e-02, 4.840274361364320377e-02, 1.341192715454347928e-01, 9.896055209424788890e-01, 5.626520772409410176e-01, 1.858974993603117742e-01, 7.776263769071197762e-01, 1.521783585542676731e-01, 8.505082761647885237e-01, 8.956346834389635747e-01, 9.918961444068827293e-02, 3.778512991309043167e-01, 4.095311796949702154e-01, 3.994177435403597487e-01, 2.818911964528140746e-01, 5.035414409953290482e-01, 7.842013504655214184e-01, 1.212886972286592036e-01, 7.311346038524524360e-01, 4.447565095314045536e-01, 4.223701343997462998e-01, 3.100776596132849283e-01, 1.336039538059857479e-01, 5.359824282897237557e-01, 2.021545580846305090e-01, 8.702412666767295191e-01, 6.329610735487726236e-01, 9.843001517485221452e-01, 5.822008145001371648e-01, 3.884182076606166878e-01, 2.479637989545241394e-01, 3.482349644332277117e-01, 3.594877705423294434e-01, 6.720774766557987556e-01, 3.684613789673343298e-01, 6.952585521850538353e-01, 8.510893670964031488e-01, 6.937585812792897988e-01, 8.981199151410577119e-01, 8.174262326809924595e-01, 4.802967204047323690e-01, 1.716534275660016873e-01, 2.414820308083548139e-01, 1.649507047061537779e-01, 1.424035723597835701e-01, 4.550886336554946787e-01, 5.658008064372724299e-02, 4.851129982111422878e-01, 8.171885449903781851e-01, 9.870232526348404756e-01, 6.481345040965547089e-02, 9.126657294627386063e-01, 6.285592527367388493e-01, 7.801308157002986299e-01, 1.029512003125127723e-01, 3.105692647958216979e-01, 9.903272958600286557e-01, 7.880142782994242756e-01, 9.871157517722060071e-01, 3.689599785784897223e-01, 1.905718049796372437e-01, 7.352355357540970582e-01, 1.394186949901203842e-01, 7.639427078929937887e-01, 9.767949967425396673e-01, 5.261293508371474026e-01, 9.636781545363770629e-01, 9.947910919511911976e-01, 1.116059242785632372e-01, 7.791972981830419531e-01, 5.069178224593181570e-01, 4.150647000686356614e-01, 7.433598882338599001e-01, 3.680599105407993399e-01, 9.338803842341072414e-01, 9.449051209662755468e-01, 5.909682765207400212e-01, 4.558816004967113089e-02, 6.926012543326841575e-01, 8.590211693301386120e-01, 6.233119878299633321e-01, 6.487410609299499864e-01, 3.583338362645222541e-01, 7.385766844497112515e-01, 2.579372792389887925e-01, 3.898526684043987500e-01, 1.542715232564022820e-01, 3.664839724097884166e-01, 9.856281320355586573e-01, 9.644539084076755309e-01, 1.785789776645891613e-01, 6.698416891787583038e-01, 7.001357271119311720e-01, 4.809651417892193970e-01, 4.502102949416472710e-01, 2.149569764797975291e-01, 5.878578257399085238e-01, 1.668030999415776386e-02, 4.578538741993155026e-01, 9.155242554709658309e-01, 1.121640538710054619e-01, 8.543549376676875529e-01, 5.377592305094499592e-01, 6.779290737802148303e-01, 1.169710656595058032e-02, 1.817420484099179223e-01, 9.806706978969821353e-01, 3.708145184996765042e-01, 7.390498524978077466e-01, 5.389317910610267326e-01, 9.250253654277007520e-01, 1.095850735886622906e-01, 3.873381112376185764e-01, 3.468426655454912577e-01, 6.138583810105793237e-01, 7.426614710792962537e-01, 9.278171969915868234e-01, 1.758284692084532974e-01, 6.647494841694263634e-01, 5.507218502091690837e-01, 6.861612910396297504e-02, 1.899286301927566589e-01, 2.847488756047636405e-01, 8.946173006735345101e-01, 8.496745570864618902e-01, 1.071167694570120260e-01, 6.643219266711021254e-01, 8.705327948902305546e-02, 2.337410421667274474e-01, 1.535399339289927976e-03, 3.938888614792069309e-01, 6.825439852841874711e-01, 1.909747555058731727e-01, 5.062551926607143926e-01, 1.827299018144909193e-01, 5.196772169812144959e-01, 8.394402311107347359e-01, 1.655143779193921083e-01, 9.838789544434319856e-01, 4.471847338270895089e-01, 6.255609206968575364e-01, 8.053200038950650841e-01, 9.395507131256040090e-01, 4.986717148298276947e-01, 6.556864488362410537e-01, 2.322874221515682999e-02, 4.261921310497384097e-01, 4.421157097766637012e-01, 4.107422541955155770e-01, 4.684190918396980985e-01, 3.701143745334476987e-01, 5.713146769221498500e-02, 4.756773209402382907e-01, 2.320231674655890142e-01, 1.835621031428396055e-01, 7.639543406220205002e-01, 2.604097647726172915e-01, 5.551960668757430772e-01, 6.914799124920660844e-01, 4.633266272288944498e-01, 3.339053665051047171e-01, 5.211616598831548819e-01, 4.722918408424499059e-01, 2.371850848724911531e-01, 6.921391941189005692e-01, 2.480826626035692040e-01, 6.299711171521181312e-03, 4.529663109106485952e-01, 8.539467936540436899e-01, 3.189318153203765660e-01, 4.855927786833129645e-01, 7.762053967431941093e-01, 9.595358991838718321e-01, 5.833418643466797837e-01, 5.031618652322483731e-01, 7.189109897466645638e-01, 3.859242769066226764e-01, 8.789280204990785883e-01, 9.633188893941863062e-01, 8.897644301379140641e-01, 8.547897622633388037e-01, 7.235825759221907461e-02, 9.171887173740075339e-01, 1.274123962636121987e-01, 8.286128433838554352e-01, 2.648606005033977140e-01, 4.729443505683874061e-01, 3.886238943194790796e-01, 2.956124507728424833e-01, 5.554937219126573344e-01, 9.329842886365153909e-01, 5.347132008623193267e-01, 1.443726571850475759e-01, 8.690481291298489674e-01, 5.811151083769298259e-02, 9.516061196809601219e-02, 2.114536930619840549e-01, 6.308697254060695592e-01, 3.800152164300055202e-01, 3.457614782918224661e-01, 4.016719636369269208e-01, 2.675714415335005147e-02, 4.456788233432915081e-01, 8.295256159700286069e-01, 4.868109067167079029e-01, 8.965782334960094024e-01, 2.485059151528076493e-01, 2.694476697923565145e-01, 8.907816562524228932e-01, 5.795086364277844959e-01, 2.234116693262503117e-01, 3.724075467359529851e-02, 6.809357989890212348e-01, 5.029005346159698409e-01, 9.372053050006631247e-01, 5.218808037579596437e-01, 7.485950879495777421e-01, 3.395101238221621687e-01, 9.967089198054234211e-01, 9.897475620212338177e-01, 5.547329398954384816e-01, 9.257982361543423133e-01, 8.235758817989328184e-01, 7.425129497273531831e-02, 4.162831960088224648e-01, 3.173084409571733655e-01, 2.126029558541525991e-02, 3.369004477857803770e-01, 1.410301461747260482e-02, 3.232030674465784931e-02, 8.061108385030759660e-01, 2.324132300354078695e-02, 4.638643547968370195e-01, 4.019869512120941568e-01, 5.226726838894576455e-01, 5.818465255605984598e-01, 1.318957228504638313e-01, 8.870352919431495620e-01, 6.308504644895710500e-01, 2.084292848112668517e-01, 9.095426857160336664e-02, 5.977642339065524224e-01, 5.274425407695916279e-01, 3.098886543844215913e-01, 4.618935568676660886e-01, 4.754129397704710547e-01, 7.426292186783068905e-01, 4.623841614446335124e-01, 9.254164636698229973e-01, 2.046546976814062058e-01, 9.157111301253304525e-01, 1.328455006028901875e-01, 6.738029437101819563e-02, 6.190098943832450518e-01, 1.256970875386156650e-01, 6.726096996960627683e-01, 9.339142588011157819e-01, 7.660948070441374602e-01, 7.304662259202869823e-01, 8.404387455937564200e-01, 5.546033058051784703e-01, 8.958099157628113263e-01, 7.584001563427911208e-01, 6.640201499983433564e-01, 8.511844975082153431e-01, 8.049714931153627573e-01, 6.817226964271598799e-01, 3.306697792549004866e-01, 6.813404145337519091e-02, 4.392063206146412102e-01, 8.805821487548749493e-01, 5.216573023359292183e-01, 1.498881257830184666e-01, 3.782598014171961731e-01, 1.340339515044213503e-01, 9.692416794043242634e-01, 5.040432840649625712e-01, 7.107815091710301125e-01, 4.847690108200404246e-01, 5.094263220871608766e-01, 8.570042028821421853e-01, 2.569002830552729044e-01, 8.956955484978620374e-01, 8.882039320153930495e-01, 6.218295657053606318e-01, 2.150424517982095756e-03, 8.630729206014883248e-01, 3.856333508134933141e-01, 3.538114970915835766e-02, 1.488838722368223400e-01, 2.424688199441255021e-01, 1.182085552842200432e-01, 2.705813673855586576e-01, 4.913250200072543095e-01, 1.584074287118352464e-01, 9.402699943677546024e-01, 5.833201438702771968e-01, 7.626476058577668082e-01, 3.499031592901156312e-02, 9.790740629434474540e-02, 2.923495742826078270e-01, 5.816795447030277399e-01, 8.789910429851085505e-01, 3.638014341344424918e-01, 8.727689207907303182e-01, 1.799095077585900204e-01, 6.868446104988170653e-01, 5.580333316224659335e-01, 3.773044497443538980e-01, 2.312547750164547968e-03, 2.743446530391836502e-01, 3.560812813741213168e-01, 6.143045803303567309e-01, 5.743304081503207426e-02, 5.460683360096764138e-01, 5.076530079255081596e-02, 5.619763311629190072e-01, 6.293936828564150598e-01, 6.298552327264795858e-01, 8.385413802612087242e-01, 7.789990664887254113e-01, 3.091283031468809450e-01, 4.122220865172488979e-01, 4.519973401350891873e-01, 4.847020880497279749e-01, 9.926748576755198283e-02, 6.165102250708545673e-02, 9.759549518436599902e-01, 5.897837215704094804e-01, 8.529086292937090863e-02, 8.219542620870549099e-01, 7.919034897509453774e-01, 9.083652170808368398e-01, 3.973617103316889332e-01, 5.452441153200680013e-01, 4.624859393305744693e-01, 8.424307484314606798e-02, 9.463912790673237874e-01, 2.609709093788306275e-02, 3.117505087704612321e-01, 1.460919352743716981e-01, 9.898619269503771134e-01, 8.434734932749383962e-02, 4.365198447447409674e-02, 8.627758622719359227e-01, 2.699761769285048962e-01, 7.524599591110558983e-01, 3.261981994065529245e-01, 1.250667192757413948e-01, 5.961426639382323422e-01, 6.920017695872221486e-01, 6.860630777380186673e-01, 8.395395516507599964e-01, 9.997050100391515759e-01, 3.725134623150549995e-01, 1.207581466070653808e-01, 8.223247675495319875e-01, 4.837488361407191184e-01, 4.309742048843248075e-01, 9.788289892923088820e-01, 4.634558420167932402e-01, 4.857808220042743597e-01, 3.436585295511404570e-01, 2.500131728595289538e-02, 2.328266373931124622e-01, 3.807342862140115081e-01, 3.762046847334570843e-01, 4.378209466667259409e-01, 5.976464835760879613e-01, 4.070018218099928919e-01, 8.758626804217635176e-01, 7.776828402278437302e-01, 1.921580674145850764e-01, 4.283259936034373161e-01, 1.598300292685008728e-01, 8.686508217060575146e-03, 9.750780496706121792e-01, 9.717420801475200320e-02, 7.271788744556567652e-01, 5.228736578118247103e-01, 3.011709977745381100e-02, 2.465042467311422403e-01, 3.988336572925768597e-02, 6.199611937880300516e-01, 2.462386535227546747e-01, 5.159085291779479387e-01, 9.403942202984234555e-01, 5.423148365600987536e-02, 9.476142848800013230e-01, 5.136553731563016090e-01, 9.503970586240284568e-01, 2.037828169240484266e-01, 2.434223459773394160e-01, 7.884515880333315963e-01, 6.804084366704379327e-01, 9.060283529859877172e-01, 2.214060309557842610e-01, 4.867675686293164716e-01, 5.963237671199830281e-01, 9.542681674210751197e-02, 7.436394711378805367e-01, 5.416953907534687307e-01, 2.792466112437952952e-01, 6.618758117648666506e-01, 4.779310971517803930e-01, 2.271247134916569155e-01, 2.736117899950565868e-01, 9.840079152232042992e-01, 7.895344597183928670e-02, 7.610997697975214749e-01, 5.461245934036475236e-02, 2.579446533853884671e-01, 9.417711663601479044e-01, 6.174484648582372337e-01, 4.812814635709926070e-01, 1.742940380649947441e-01, 1.629401528819173495e-01, 9.098951134832402587e-01, 8.394070564657584166e-01, 3.801076112075792435e-01, 9.335165861198548853e-01, 4.616174920724507302e-01, 5.791544928553407079e-01, 9.289021288752454808e-01, 5.660005456784102940e-01, 8.438621660217946463e-01, 6.707279113436588336e-01, 2.400540519376509752e-01, 9.874982822570793628e-01, 5.913482368263524025e-01, 8.948615596908009451e-01, 4.765590040121392978e-01, 4.354037161493780617e-01, 8.896616554959827505e-01, 7.520111777994107349e-01, 5.384403108545975369e-01, 9.717617797109270317e-01, 2.516209239835980882e-01, 1.902628667752368774e-01, 9.550639033411052470e-01, 9.870146172791339767e-01, 2.190710080720239261e-01, 1.725903966132814049e-01, 4.436841260840290735e-01, 2.620632733398833847e-01, 1.210713641848667060e-01, 4.824672203088482547e-01, 3.115482390583500516e-01, 4.791285806158787075e-01, 7.559303224097492224e-01, 1.655761290193195068e-01, 1.146831050275108760e-01, 2.824306877572790309e-01, 6.007218921016388435e-02, 3.487334356156466808e-01, 7.374412575354137855e-01, 8.846513744207825658e-01, 7.740134089811647744e-01, 5.166164366949970166e-01, 6.780229654794347471e-01, 8.402541393177906937e-01, 4.746525497575947439e-01, 5.314402327180368646e-01, 2.665279809639261033e-01, 4.272345709691179882e-01, 1.180349568419724327e-01, 2.362462270701415068e-01, 4.806461994040824304e-01, 7.116609978170426176e-01, 1.304961191879170368e-01, 7.357189209439493061e-01, 2.665069722339749592e-01, 3.886930893547942412e-01, 2.575738929646879116e-01, 3.069205219188561040e-01, 7.453367691017794838e-01, 4.662690933954102279e-01, 3.916132877229148157e-01, 9.039723756221114126e-01, 9.349479801044130456e-01, 8.686526913703161989e-01, 2.112683745112644562e-01, 3.477331035079759269e-01, 4.101415066083576311e-01, 4.973662475253214366e-01, 4.732063500885493879e-01, 1.467518395487140970e-01, 1.410067982570845646e-01, 9.292663485039405202e-01, 6.164675874227983909e-01, 5.298536294030372629e-01, 4.742494252406145305e-01, 4.211305732842468008e-01, 6.569503619895893098e-02, 4.838171204150720772e-01, 1.721175320310893708e-01, 8.033734203488578363e-01, 9.170239163548412620e-01, 8.665964150632314844e-01, 7.757205365270597452e-01, 7.419081480919834659e-01, 7.146339640187866493e-01, 4.216696206056571583e-01, 5.425766675606046724e-02, 1.401010291198612479e-01, 5.291133772154858056e-02, 6.779415358298097605e-01, 6.781949179722057686e-01, 5.195430264166919221e-01, 9.550492713076420559e-01, 8.419201133877453058e-01, 5.917286306074184266e-01, 2.726405206332971898e-01, 6.092844658301012073e-01, 9.195146213444796990e-01, 2.351421949835180158e-01, 3.302762615982432481e-01, 6.898368052397697847e-02, 6.912547040637345708e-01, 3.555365513420986057e-01, 3.483122847558356439e-01, 6.831473551751566786e-01, 3.590323264515798418e-01, 1.063164548549399777e-02, 1.203459513411447857e-01, 9.600741609036911317e-01, 2.440200475537900315e-01, 1.759863621611490736e-01, 6.455734378303717991e-01, 9.606546827695836566e-01, 4.534287553779312724e-02, 2.747217941590903156e-01, 5.560899276454088144e-03, 1.864430706943886462e-01, 4.879403705782082989e-02, 8.352102679493154103e-01, 3.473020549522596312e-01, 5.676523130909588710e-01, 5.699464375573287667e-01, 2.413022764774538365e-01, 8.720036210794266385e-01, 8.837211028783343858e-01, 2.081569933534382910e-01, 5.510643900562716135e-01, 2.687432946637891562e-01, 6.036386148985611877e-01, 5.702751142079155455e-01, 1.078554659398533455e-01, 7.437134876062260203e-01, 7.650839963457735371e-02, 1.572231812698487996e-01, 1.871750687252638282e-02, 9.369935126399142611e-01, 7.792032203478431451e-02, 6.063245195280771993e-01, 6.999488589394614602e-02, 6.248775119900960157e-02, 4.842204250098330887e-01, 5.083119473377354369e-01, 8.911530265191848210e-01, 7.322551749251036135e-01, 9.388734237704017271e-01, 1.297277224126646422e-01, 7.833168537351939964e-01, 7.219837972661570236e-01, 6.963471180401978877e-01, 3.551732807134564962e-01, 1.224659366795027987e-01, 6.029361815305988026e-01, 5.472152709360602607e-01, 4.973862570454058718e-02, 8.222513677470757454e-01, 6.228272114475740251e-01, 1.288029634464888662e-01, 2.548498300277898809e-01, 2.050645234911140785e-02, 3.105143061609244581e-01, 4.416205573726548345e-02, 3.540562950822261357e-01, 2.966671758172551802e-03, 9.843844834921433584e-02, 5.113605931200073673e-01, 5.509672408568351276e-01, 8.106538486630820994e-01, 9.979421696083126125e-01, 3.818540202081634194e-02, 4.264653085380885611e-01, 1.293050188831785519e-01, 1.179520424715385096e-01, 4.897078261542537891e-01, 3.306762979338163655e-01, 9.587701671086332755e-01, 6.388503132473676294e-01, 6.016949464785461416e-02, 5.025042403025600235e-01, 5.783415667790243742e-01, 1.995074137980884510e-01, 9.866010402085281239e-01, 2.032328889567072416e-01, 6.801050168105856608e-01, 7.915644053539078184e-01, 6.996385911553041348e-01, 6.199096134293771154e-01, 3.014852844344997895e-01, 1.526201010326216079e-01, 7.689876064537010114e-01, 3.316794419551013506e-01, 8.964062764595717159e-01, 2.898541317670590978e-01, 2.891446261938374618e-01, 9.047909720049289728e-01, 6.729860443598417730e-01, 2.919293100161027277e-01, 9.043180664778646127e-01, 7.207047261791950099e-01, 6.423479845119709486e-01, 1.879343171106828414e-01, 8.765505917647486989e-01, 5.391268973666495379e-01, 2.101053808012055824e-01, 3.051277265439188424e-01, 6.462701108996489197e-01, 6.913930165920038062e-01, 1.576391144543140277e-01, 5.766268204570090816e-01, 1.641351687725948472e-01, 1.891090576466902817e-01, 6.755024696434477893e-02, 9.675765851567057485e-01, 2.119354208822716024e-01, 2.981446366254278391e-01, 3.506712022985248867e-01, 5.723042172068087963e-01, 9.251542466347105753e-01, 8.379468102907968730e-01, 1.025705829601516322e-01, 6.374678575495424937e-01, 8.381732708629420214e-01, 2.329569419549971099e-01, 4.368078791060193700e-01, 8.409168569675771199e-01, 4.150283506450371807e-01, 7.888916186524596030e-01, 4.177638070040964879e-01, 4.766869464530657519e-01, 2.592436242393664769e-01, 1.802036022918883373e-01, 3.421942737217870678e-01, 4.389200412274129048e-01, 3.284339756963962631e-01, 2.428743268955601553e-01, 7.395668351382599370e-01, 9.012204350023987898e-01, 2.909311863982341206e-01, 2.960725828849398722e-01, 8.196489911844616616e-01, 1.365447787862221485e-01, 4.918408785843671471e-01, 1.762595490305476631e-01, 3.496614037895578453e-01, 3.072594975832125819e-01, 9.806306471547069359e-01, 5.449138546894576329e-01, 3.592494501611436797e-01, 4.597414556855230483e-01, 9.811998233053275120e-01, 6.712297375436293567e-01, 9.879492144780135932e-02, 4.435931261133708170e-01, 4.490494335807149739e-01, 3.813174032227056864e-01, 2.468358412905219124e-01, 3.544566547993354133e-01, 4.379316951561375293e-02, 1.744856895408388175e-01, 7.680463828795283110e-01, 8.472317858563894744e-01, 1.527786663779379800e-02, 3.434478629633924140e-01, 7.677830345310665550e-01, 4.392133832690796047e-01, 3.144487812398950033e-01, 5.947218556507511966e-01, 5.045784624910463201e-01, 8.196385441389766324e-01, 9.167582219972554292e-01, 2.196028743012345616e-02, 6.782397839178136434e-02, 5.848181567980367257e-01, 3.472521423480790514e-01, 1.964843190207372081e-01, 2.482806755582474545e-01, 8.919514278111433381e-01, 9.559633223520934697e-01, 9.530477777267785111e-01, 1.525794317553631485e-01, 2.803846515315854271e-01, 4.728482354225124751e-02, 4.501112658803521072e-01, 2.130214872892998434e-01, 7.449465982205153436e-01, 9.662149610144858958e-01, 9.064621659170991608e-01, 6.957450518049455856e-02, 3.847983489564869020e-01, 4.077547400604602523e-01, 8.311109917791649204e-01, 9.442428199060255434e-01, 8.404057169741142586e-01, 5.994396511009464357e-01, 1.722730650578071024e-02, 7.209163001282010708e-01, 6.729235595301585882e-01, 9.742244842683041028e-01, 3.902050772765554010e-01, 9.531280948165048450e-01, 4.914779832486121380e-01, 2.750744490705512788e-02, 7.763376465795316372e-01, 7.245988757580391626e-01, 2.875551179073858044e-01, 2.170311376616770038e-01, 2.581740289526513465e-01, 9.280051680221229615e-01, 7.217691701532208404e-01, 7.828915721010196727e-01, 3.882089877769504538e-01, 8.176055605198236931e-01, 6.448905617581699445e-01, 7.877822309605432283e-01, 2.373278995915445166e-01, 7.831174357896676375e-01, 7.540269102565018144e-01, 9.238687895331748612e-01, 4.600061159802489863e-01, 1.139318206981890236e-01, 5.105019404991263388e-01, 3.169219772382233374e-02, 2.573262572951243166e-01, 3.052307487073067649e-01, 2.031146684801062308e-01, 4.133173886389107099e-01, 3.603302283023399610e-01, 2.262782284153515011e-01, 7.232908208407617945e-01, 5.408943885041470612e-01, 8.440207830526564869e-01, 9.802611784904774472e-01, 4.435853356154207949e-01, 1.192744629171392512e-01, 8.259539736186479741e-01, 2.432233224252630110e-01, 5.852960081797362601e-01, 5.073401028197632723e-01, 7.558900429205998028e-01, 4.402361141499906427e-01, 2.986165125267120635e-01, 6.863080757215300753e-01, 2.633354796337862846e-01, 8.814496231804385129e-01, 2.696088659589873648e-01, 7.188873540941771445e-01, 6.762863524930804449e-01, 8.444952256657574097e-01, 9.285690558500394598e-01, 2.493267202595262841e-02, 3.415242881654923512e-01, 4.419327603808425597e-01, 7.812594465673059485e-01, 7.272287505868815227e-01, 9.822591032919377740e-01, 6.888914234845713302e-01, 8.019694069587172125e-01, 4.216952887226917412e-01, 8.433430908026255668e-02, 6.615382657357888885e-01, 4.764003670157527792e-01, 3.605097518477771712e-01, 9.990125582008191341e-01, 5.543139495842889231e-01, 1.510339005347331176e-01, 2.537106718420276130e-01, 3.943418498884661005e-01, 2.576740413548903041e-01, 8.522364491754221838e-01, 2.371584133524690940e-01, 5.282044174369651124e-01, 8.286640363632958861e-01, 7.429682443341280307e-02, 7.736826519388907419e-01, 7.166291760997081095e-01, 6.775983802301916992e-01, 1.094291812393868718e-01, 6.663288521058903235e-01, 6.400167440998513202e-01, 5.722143873051440677e-01, 9.260228379399125798e-01, 4.295176401821958895e-03, 5.169678739516152532e-01, 1.383719727399722876e-01, 7.837727348960172868e-01, 1.099466060640663240e-01, 1.467573297284982814e-01, 3.398635213969236624e-01, 7.843603221765551581e-01, 5.920457098566216381e-01, 9.227097664439520841e-01, 7.781948149411150872e-01, 4.481414018587957515e-01, 5.685943083571284168e-02, 3.217647353521596032e-01, 8.781860834006424144e-01, 7.427585259836155807e-02, 2.033814399457080091e-01, 7.680981578668513166e-01, 7.195647137299240326e-01, 6.515907217762516579e-01, 9.837111286714986802e-01, 6.485865539843033156e-01, 5.347559179407245233e-01, 4.295286866448013163e-01, 8.745483109405122191e-01, 3.340342682240866057e-01, 3.375674296104935745e-01, 9.839358640227253705e-01, 2.126685489371421545e-01, 6.736375379814906195e-01, 4.038750970438654414e-02, 7.852472924077616989e-01, 8.228975908137956541e-01, 1.609822265738653224e-01, 5.097989983517533519e-01, 4.689351152249281451e-01, 4.087485881951217759e-01, 9.647627541020994402e-01, 3.051813517441774870e-01, 3.656976850339956064e-02, 5.794346135548453791e-01, 8.100369325625446093e-01, 3.739912727378318785e-02, 1.637151491970207373e-01, 3.904751595421840915e-01, 8.030694709068658677e-01, 9.015595588233814572e-01, 2.677082156963325188e-01, 4.815801594396333374e-01, 8.740077626583294679e-01, 1.945887067975219931e-01, 5.656743483058610522e-01, 8.500791045539647373e-01, 6.082753384898853533e-01, 4.869560743286759918e-01, 8.960136418878208442e-01, 9.118938091450455863e-01, 4.344467449239444168e-01, 4.468918163206962446e-01, 2.953171556959769961e-01, 3.503125017404101066e-02, 6.488167769600242663e-01, 4.318729667293210728e-01, 8.880163125689884973e-01, 1.836083889528987156e-01, 6.257965520597505993e-01, 7.293936195685553070e-01, 4.651652119065414759e-01, 3.119022387821523412e-01, 3.024043665722596641e-01, 3.178227131898385127e-01, 4.386039632105809272e-02, 7.264691119786089724e-01, 5.801372920317501292e-01, 5.083276704443898675e-01, 2.554208213613451406e-01, 6.660911437723354700e-01, 5.719101642018080689e-01, 5.732313800045525376e-01, 7.527726166639698846e-01, 1.260484544944858731e-01, 4.799817733674854314e-01, 4.644831964534915092e-01, 5.513452598662829107e-01, 9.063020185694784514e-01, 2.345722600477714581e-01, 9.995477485439353826e-02, 1.059484081034732517e-01, 6.964789809429928757e-01, 1.345824027470153561e-01, 9.847340618902119536e-01, 4.200822072354402636e-01, 3.822349703172081559e-01, 7.640136686908873820e-01, 5.015493784839513136e-01, 1.365686075282520617e-01, 2.039166642907324356e-01, 1.682118963329693184e-01, 7.662221661446472210e-01, 1.032531866002903143e-01, 3.824680913435300478e-01, 3.676092775133847357e-01, 1.020562261953287253e-01, 4.324130449029787160e-01, 8.969022072178067795e-01, 9.266042159940531819e-01, 8.788318593485336949e-01, 9.779786682391554686e-01, 1.594751268001064481e-01, 6.876669988731448635e-01, 2.749367019654181399e-01, 1.006547357104731893e-01, 5.277513444379208080e-02, 9.023549569440691975e-01, 2.332477564789395275e-02, 9.084808431402948692e-01, 5.722205739400756386e-01, 6.119937524496239512e-01, 6.242505061576125724e-02, 8.553364345051744921e-01, 4.282255921497067352e-01, 1.010326826558336638e-01, 2.895687684785677174e-01, 5.498281234597570677e-01, 9.714064368028971566e-03, 7.968241341411819167e-01, 9.207596557510793200e-01, 4.593936274849576978e-02, 9.354788760848011808e-01, 2.659351215410918901e-01, 9.521612153641074716e-01, 6.629121132220012758e-01, 2.495391818821142416e-01, 8.516348167422058135e-02, 9.136335572079913592e-02, 8.477578826638153542e-01, 3.044098343883897551e-01, 4.140164770681112327e-01, 8.192579188918691635e-02, 9.040682234427990238e-01, 7.255456133880997527e-01, 2.999092999087781819e-01, 2.433686985589497975e-01, 8.458060788426842169e-01, 2.257759350568006584e-01, 5.596670008250533845e-01, 9.951239409775322065e-01, 1.670688418984028756e-01, 6.560960985972847936e-01, 7.051598838217749965e-02, 9.308800412344618580e-02, 1.617699283233914598e-01, 6.760838822518294711e-01, 6.701454774869913811e-01, 1.481899684757471691e-01, 4.601154222635504554e-01, 5.597556814737304071e-02, 5.236808363097924524e-01, 4.663552846125351148e-01, 7.523374891768305206e-01, 1.731539928843522647e-01, 6.134057921318446516e-01, 8.089851378696341078e-01, 1.262042707820237031e-01, 9.991759406366493845e-01, 6.064497248960165621e-01, 5.527672186862994108e-01, 1.541500918068719472e-01, 6.859223411141509574e-01, 8.087222386481979219e-01, 6.460371515207645743e-01, 8.047473109883122033e-01, 8.595837697374109077e-01, 2.879156993151325561e-01, 4.622244704255987213e-01, 6.596562070275230338e-01, 9.425056332209168497e-01, 5.046368020965905643e-01, 7.280385705194805102e-01, 9.045167084585543915e-02, 9.813255872771549093e-01, 5.320235824394451418e-01, 4.471995321667076029e-01, 9.078902612886873280e-01, 1.419962123249529362e-01, 5.232113628685592932e-01, 5.096864890120577085e-01, 9.864308965961743336e-02, 7.577192310954913301e-01, 4.000557215412176015e-01, 6.178251976233110065e-01, 9.581499469680038183e-01, 6.607515359647672115e-01, 4.314196999194859494e-02, 1.203678239067957900e-01, 4.833391333663945577e-01, 2.022646573622991495e-01, 7.523071610128506670e-01, 8.394419036768901998e-01, 9.711051244758954759e-01, 6.736985410471056923e-01, 2.880396119970010660e-01, 5.024894448261751911e-01, 9.373472467935675123e-01, 8.550090805448461451e-01, 9.450108773392746908e-01, 6.976964368553289879e-03, 2.675224934068717308e-01, 4.341034000732352238e-01, 3.021575096173906294e-01, 5.915605229522969966e-01, 9.460009321350318912e-01, 7.138278037346187932e-02, 7.548834140059302866e-01, 2.557387229479274326e-01, 8.394772497985225623e-01, 5.870426224595325371e-01, 7.813477603773347768e-01, 1.696904609931748631e-01, 7.330705579755999457e-01, 2.929790599042175203e-01, 9.047317331038120525e-01, 4.514648003107899488e-01, 5.018294384615467063e-01, 8.342483461306345882e-01, 6.745213551543726149e-01, 7.101936410870653971e-01, 3.977101297009486697e-02, 9.158526980817988106e-01, 6.670364027589494038e-02, 5.153927370699405985e-01, 8.065862730749435716e-01, 7.350475854049656199e-01, 8.027968144842758669e-01, 5.593265921422885256e-01, 3.036068662609190949e-01, 9.768760250849678473e-01, 1.394943673924204375e-01, 1.054186488538439853e-01, 4.782012679139259759e-01, 2.014591371845913803e-01, 5.701828775721990983e-01, 7.370005777846490996e-03, 4.002160824813724149e-01, 6.858345188211165677e-01, 1.661151411837936964e-01, 7.899175742673326672e-01, 5.822994293158413326e-01, 4.947385050453244060e-01, 4.564816597132094755e-01, 6.960327941258216411e-01, 5.136933921698387806e-01, 5.614504687140201566e-01, 2.092958999901053940e-01, 5.069134458825425016e-01, 7.278620966953475158e-01, 2.768938211585209586e-01, 6.410415149014503378e-01, 1.207612901061897240e-02, 5.235969763591029613e-01, 6.442500612908376167e-01, 7.885875877846321158e-01, 7.058338909951817897e-01, 3.933875054160097529e-01, 8.532280154219940016e-01, 1.574455419865072592e-01, 6.978431956924205926e-01, 5.383079550425434734e-02, 8.924666003787833368e-01, 2.585225621314540256e-01, 1.172094736504007972e-01, 2.328976674786175649e-01, 5.486627705466785576e-01, 1.167104686372998634e-01, 9.719680289027041176e-02, 4.483783479566482710e-01, 6.972653989090858984e-01, 7.998553982820590935e-01, 6.473542463808104053e-01, 2.637148475739534703e-01, 3.484461531072041707e-01, 9.374363452739971070e-01, 2.520342347861471710e-01, 7.262023075248880133e-01, 8.763726334782928618e-01, 5.198509762736657214e-01, 3.143179526691947112e-01, 7.832254622538767364e-02, 2.532109178230333435e-01, 3.006728992567123115e-01, 8.734195086171193667e-01, 2.927189811711449208e-01, 5.093000783404464382e-01, 4.003368594005045078e-01, 1.040418795283152426e-01, 4.089136061115717369e-01, 1.482106292552792803e-01, 2.413106707157958719e-01, 4.691610326095789762e-01, 2.011312001913962422e-01, 9.240706321736798234e-02, 2.709631811474986773e-01, 2.012843534144972413e-01, 8.724559955481587803e-01, 1.992632201548008852e-01, 8.348704362141600166e-01, 3.832155419320799061e-01, 5.249152867545425760e-01, 4.920925619717624322e-01, 7.363378901929752418e-01, 9.521876384417010675e-02, 7.324696339186876903e-01, 4.736641476780619198e-01, 4.110690662922931726e-01, 3.856086323459281817e-01, 8.477773390383253060e-01, 6.659580242636023995e-01, 5.788665391128466897e-01, 3.887432470969662268e-01, 7.508102558138207705e-01, 5.156031798079454553e-01, 4.214206560046820371e-01, 2.657685333079683465e-01, 2.918750676849078407e-01, 9.964640709842286226e-01, 4.939715057437434886e-01, 5.784409596132478182e-01, 2.167514528196310131e-01, 3.412196175647391749e-01, 5.668053585833336960e-01, 2.320680023984078577e-01, 6.992933007351203045e-01, 7.957885298139731889e-01, 8.206814108295798493e-02, 4.477818795352420805e-02, 1.253403348777289983e-01, 2.617557745644597325e-02, 2.449555048662140772e-02, 2.155419008479813048e-01, 9.824671815704532074e-01, 1.201235739224197074e-01, 7.633507578435272389e-01, 9.339469076310021878e-01, 1.842392864236966632e-01, 9.315333211653875622e-01, 9.009437828399725623e-01, 9.737713450146139316e-01, 3.204037037467480920e-01, 3.097842304019292614e-01, 2.555673012996655946e-01, 6.100261357962594166e-01, 5.577727934106140317e-01, 1.514905957607897390e-02, 1.960168113895509046e-01, 3.562545489999481285e-01, 2.658457925062980565e-02, 9.547479790422578327e-01, 1.365156772695477472e-01, 6.441202487987816028e-01, 2.949877705454409527e-01, 4.599962674541172580e-01, 5.186722284807624428e-01, 3.327344047807012095e-01, 1.192556292990260142e-01, 2.043709133674012357e-01, 5.141163926451945976e-01, 9.307153025743902797e-01, 9.599440328363968433e-01, 7.904641414443286385e-01, 4.093867552708469471e-01, 7.556764288424786535e-01, 9.096411380962106108e-01, 3.698635096821127344e-01, 4.988303967933047645e-01, 7.592434003510072360e-01, 5.584037141157505157e-01, 4.319035455289131353e-01, 8.319074640925333552e-01, 8.488883215410367722e-01, 3.478625536111068506e-01, 9.505564576469065219e-02, 1.014683513164947037e-01, 4.906556092047659190e-01, 4.592123980131218031e-01, 9.576890353430332903e-01, 5.837898561343598525e-01, 8.737366959240624453e-01, 2.120546090712013831e-01, 2.594704576134382323e-01, 6.017901655328693478e-01, 9.037646771637584953e-02, 2.689603821348952040e-01, 7.761367082946752927e-01, 8.094570937084641926e-01, 2.150476968112680631e-01, 7.678500069397066474e-02, 4.150433792255215359e-01, 6.877091712220172459e-01, 5.102628282182094521e-01, 6.551903271677371743e-01, 9.547376788670738357e-01, 6.655925454126304652e-01, 5.904755016857844013e-02, 3.651889502740239823e-01, 4.386561434070358478e-01, 6.637316835084655642e-01, 2.540054343336401455e-01, 7.896064569451581860e-01, 4.486970246423194197e-01, 5.830770885547106319e-01, 6.558814391607741268e-01, 8.584767497513866585e-01, 7.979859085083619297e-01, 4.574400870096767546e-01, 8.194884471253537361e-01, 7.753261553703355569e-01, 8.655986846417063063e-01, 6.835830221027949793e-02, 1.344704644804115834e-01, 9.405279087518600978e-01, 6.545939194226786384e-01, 4.388740651799591386e-01, 7.093676828429305026e-01, 5.299038110910072596e-01, 2.269019665394669816e-01, 9.447042097069995314e-01, 8.650629630291593042e-01, 3.423966629257915728e-01, 9.258326001065797506e-01, 5.222470873192632812e-01, 8.781553347316792824e-01, 6.526804850807713110e-02, 3.333567142151890317e-01, 3.239106648673686917e-01, 3.532752225049769490e-01, 7.564556743185681942e-01, 6.823612918042374353e-01, 6.680622169565574309e-01, 2.722479310827871646e-01, 2.020805906268413610e-01, 7.260899685008022353e-02, 2.158869538613530925e-01, 2.915924497949110572e-01, 3.514943401619750052e-01, 4.094736559244213647e-02, 4.327067197337983728e-01, 5.015194062320740276e-01, 9.218353341870271223e-01, 6.540679855231248396e-01, 1.601374880726070538e-01, 2.807905023870205241e-02, 5.134779055152284277e-01, 7.067028383980044071e-01, 4.345165962580534863e-02, 3.679102795645279311e-01, 4.608029427155438951e-01, 6.645939898729018580e-01, 8.768680000374216021e-01, 9.192781411083336129e-01, 6.810988553857555416e-01, 4.716192297118385057e-01, 9.105553064515639061e-01, 5.208265851616700193e-01, 4.573595224156063455e-01, 6.441744835133835778e-01, 9.999867414816426825e-01, 8.497325773952735251e-01, 8.533764812231556807e-01, 8.363275841316647474e-01, 6.563895511930643856e-02, 2.647170687959370383e-01, 2.272956913924378541e-01, 4.668476868437746591e-02, 8.660272983352464982e-01, 2.727469197371041876e-01, 5.268467535615060093e-01, 6.896169801055893611e-01, 6.239419561296037919e-01, 3.509063518457580244e-01, 4.218687386320153082e-02, 9.653868449020590603e-01, 6.125045252182701461e-01, 7.298810675906103329e-01, 1.652117597699677420e-01, 1.147496823671452920e-01, 2.813768740685284597e-01, 1.445513105631180961e-01, 5.091349948166037365e-01, 5.633644404077488010e-01, 4.106164609005092392e-01, 5.180643282990722298e-01, 2.701029689596284866e-01, 3.167894055517323504e-01, 1.467968528839404263e-01, 1.906287711607781710e-01, 1.066259290950922166e-02, 7.416176226303392571e-01, 1.203373466994205748e-01, 9.740936715143103664e-01, 8.482495311579175690e-01, 5.257159483078853723e-01, 9.187361120870610742e-01, 7.362886799904504453e-01, 5.988446078482869556e-02, 7.307414561996516955e-01, 1.002175481154207390e-02, 1.097277073778575238e-02, 6.191165842261775465e-01, 9.915235383037749317e-01, 1.830059273461846214e-01, 8.179258175905432804e-01, 7.198328648641999505e-01, 3.981778137040271059e-01, 1.746634615503961929e-01, 3.266368902059696988e-01, 3.322176872293071681e-01, 3.898150638128976553e-01, 3.493445053468048622e-02, 3.934833183399628065e-01, 7.582364151378548911e-01, 3.749681019850752417e-01, 1.294535108668957990e-01, 8.759567633893372562e-01, 3.122034549783564983e-01, 9.467398989813715637e-01, 7.868676956432818503e-02, 5.098077108379239775e-01, 6.625798354581422522e-01, 7.500042527163870432e-01, 7.293810111294485310e-01, 3.569815878613806781e-01, 1.790602433949322891e-01, 1.563368684495158312e-01, 6.043610639055101430e-01, 5.157156551477292128e-01, 9.292705038955204611e-01, 2.794341965077299372e-01, 7.334571222620802633e-01, 7.341069823441561670e-01, 3.054359758059424501e-01, 2.726761509570191921e-01, 3.072342567794877355e-01, 1.627458992450476760e-01, 9.552629845969031752e-01, 6.993151086336444333e-01, 3.178935606579034734e-01, 2.079897535077512849e-01, 8.159384531109407090e-01, 3.668801630388914270e-01, 2.398864260030519058e-01, 3.336570778776075108e-01, 2.496697703885468744e-01, 2.976857457654266681e-01, 1.968600195890964910e-01, 6.624798647477304625e-01, 7.890304184208238869e-01, 2.147018597381964988e-01, 7.620476358437292541e-01, 1.389480903918506038e-01, 7.190445084381487106e-01, 7.106757107170289522e-01, 5.674131155446634489e-01, 1.793611803393871107e-01, 3.369766468375029467e-01, 3.434286010495982699e-01, 3.431768303928247610e-01, 6.328632980165826982e-01, 5.420312688209104612e-01, 3.614822778817048388e-01, 1.956774570671006297e-01, 2.894542405188503809e-01, 2.180680140134035883e-01, 8.241857372407970228e-01, 5.415046547720233638e-01, 7.422680260762947180e-01, 1.856186627876402206e-02, 9.205332344805748912e-01, 3.035012435343857895e-01, 5.074164548504709327e-01, 7.100146537737114238e-01, 9.023781834329374085e-01, 4.858282317692876884e-01, 3.403046893724718247e-01, 4.060281945269328951e-01, 9.392148529246483468e-01, 8.479841709582670584e-01, 7.053117146765774947e-01, 6.000208745133257804e-02, 2.959674467395272401e-01, 8.691308899225757001e-01, 5.774987455787308210e-01, 3.055359749024522675e-01, 7.810336887657981508e-01, 2.525741754917046888e-01, 7.252740614128379004e-01, 3.722720805896055918e-01, 9.635048252820250791e-01, 4.297682814296700515e-01, 7.995858993303657236e-01, 4.802572298932373251e-01, 1.256381597626316238e-01, 2.349041947792329388e-01, 4.298726846487078701e-01, 4.733343795070222848e-01, 9.636876317101708000e-01, 5.569045840893509514e-01, 9.365249746769277461e-01, 2.722842187803951042e-01, 6.901003928399029874e-01, 2.598307652584189720e-01, 7.477601495981462953e-01, 9.529022231442223489e-01, 3.585863205407657794e-01, 1.974394304065170969e-01, 5.900963769718450269e-01, 5.224828420299150178e-01, 6.593102971101133525e-01, 1.323998404575134069e-01, 1.930357471659605584e-01, 8.371039260192525422e-01, 8.763100775509431450e-01, 3.207675191962317540e-01, 1.209866465015436293e-01, 8.743344524691269992e-01, 7.223037937122704921e-01, 7.984883025411634305e-01, 1.504858963155253637e-01, 8.522331510285908740e-01, 4.878028375333720579e-02, 6.178325498820599337e-01, 7.754230167398702411e-01, 2.455367554121412887e-01, 1.297573601796911669e-01, 7.676485359649424245e-01, 2.953459989547042586e-01, 1.289518289958276609e-01, 4.191753379788877298e-01, 3.759216199296672722e-01, 3.560775505947810227e-01, 6.149152842047284073e-01, 5.198106133288746961e-02, 9.086817948681280566e-01, 2.979724385731333802e-01, 6.792880894582921103e-01, 1.188843311943622305e-01, 4.694161845497692442e-01, 5.522784314473839773e-01, 9.354008139960482415e-01, 5.425145121073776666e-01, 8.513981972437302259e-01, 3.108462634219293363e-01, 6.512516667301007089e-01, 2.013100705158383796e-01, 1.014478136070542935e-01, 2.050543549199574933e-01, 5.722648204319044085e-01, 6.621202727127146748e-01, 8.707875976126587814e-01, 5.467420873693373817e-01, 1.499818967809187775e-01, 4.259241409107241139e-01, 5.138879933747805828e-02, 4.026982117401781136e-02, 5.285560850515488296e-01, 8.116401706562367258e-01, 5.848380695781500993e-01, 2.479455767910635627e-02, 7.490197136548678580e-01, 6.911933445904273887e-02, 1.162923182360561525e-01, 8.809065228260249958e-01, 4.131780982721194873e-01, 7.729023545434340337e-01, 3.296431359089529445e-01, 9.876255261535348273e-01, 8.828165154277294313e-01, 7.502052855985282820e-01, 5.816174260385119643e-01, 1.398224960182241697e-02, 4.136530721955425371e-01, 6.307529356045998847e-01, 2.488371942987815111e-01, 5.509849318787268802e-01, 1.250040501088499900e-01, 3.371662416112917726e-01, 9.230234698650983116e-01, 6.956044427869140234e-01, 7.757455655017230223e-01, 7.905175499555423813e-02, 6.287251242210806224e-01, 8.581667400740085050e-01, 6.951457986524566257e-01, 5.975029766062436298e-01, 6.688113512317321874e-01, 3.724772420065280976e-01, 4.635029006981055133e-01, 8.635194694134056270e-01, 7.557463768658644332e-01, 8.106333973653342406e-01, 5.921409948336869844e-01, 7.066752568214493824e-01, 5.764907793542164427e-01, 1.685782663495541400e-01, 3.729134994973718475e-01, 1.900539755578440071e-01, 9.509859480522916408e-01, 2.922774323577091438e-01, 1.646189084277116244e-01, 9.861173546181996041e-01, 7.653954951990010747e-01, 3.613730777286608409e-01, 3.656095164406211184e-01, 4.495644679348298478e-01, 1.223160542533475031e-01, 2.486543399982817926e-01, 3.128552945693779397e-01, 4.057841549613354082e-01, 1.874257940047056592e-01, 6.417157936169101129e-01, 9.735425882391121055e-01, 5.888601979662685393e-01, 3.761152923494397449e-01, 1.251364789937391975e-01, 5.285572021557957134e-01, 7.135755489863082612e-02, 8.839032497382356968e-02, 5.071921323664835279e-01, 2.482637077163315775e-01, 8.769677503152127906e-01, 7.835545186191371636e-01, 4.207549580587895410e-01, 1.269416531699225081e-01, 2.120208483576836722e-01, 9.839767060763277007e-01, 5.298983448261077589e-01, 2.385504744299217841e-02, 6.551100533442365259e-02, 2.295342397495571118e-01, 8.659580877840955537e-01, 8.614947441108486981e-01, 8.591146676157283002e-01, 8.664131715891582042e-01, 2.715346614478348908e-01, 5.974625120077441814e-02, 2.714596290078954977e-02, 5.143418983108599685e-01, 1.529616612832261358e-01, 6.461746836293283947e-01, 5.381137917218816735e-01, 2.960888676839106282e-01, 7.671205860207523930e-01, 6.627980589004951462e-01, 3.725189454342428541e-02, 3.958368532964819386e-01, 9.448197637347289790e-01, 6.611330556244533474e-01, 1.961882111962915953e-01, 5.110870893461381126e-01, 3.061079305035585008e-01, 6.050181371984634238e-01, 6.718917431319172406e-01, 4.595415736692985975e-01, 1.950289591787275345e-01, 8.861623844785924131e-01, 3.235293048483968148e-01, 2.485677078848831378e-01, 3.302461955693430373e-01, 5.065345490385723126e-01, 3.611313287948812456e-01, 7.642249107862982838e-01, 8.039178964985028708e-01, 1.212964718191685831e-01, 1.643280385148080114e-01, 5.142397244677380241e-01, 3.452897154626530241e-01, 2.300422193295026396e-01, 3.046819912690239968e-02, 5.198116936071711658e-01, 8.082773651584698182e-01, 4.150476389905402574e-01, 1.650740442609481551e-01, 4.176949638697691758e-01, 6.103971408748399829e-01, 2.414918155248821363e-02, 2.686858082844028051e-01, 9.898634410485295243e-01, 1.465343015548896122e-01, 5.122342170334283074e-01, 2.737512933041705288e-01, 4.535334982169926810e-01, 4.126228654649201633e-01, 8.689141945488870755e-01, 5.226356406241142727e-01, 1.882120507484774385e-01, 2.261510922901481258e-01, 1.282354975199365144e-01, 3.980186160915107352e-01, 9.312624287236909160e-01, 6.095596072478524086e-01, 6.446184751603646346e-01, 4.455536242351451626e-01, 8.999596520224258933e-01, 9.454805042694707229e-01, 2.303387157925693846e-02, 9.629560070032018304e-01, 7.010255998678429634e-01, 5.546297221397528121e-01, 8.599438571117494767e-01, 8.098763622895667202e-01, 4.777105553193942145e-01, 3.831304678264231267e-01, 1.666573210137837213e-01, 1.663250961623989332e-01, 6.031015959719682185e-01, 7.864097643235786750e-01, 8.075437425335656449e-01, 7.798043972219421971e-02, 8.926045227474350696e-01, 2.211378377764206260e-01, 6.818554610865577015e-01, 5.203002657139209619e-01, 8.412796919828964270e-01, 2.085634850911536609e-01, 7.528922393577328620e-01, 9.890804176867326047e-01, 8.538926653144620627e-01, 5.622119522578181705e-01, 9.683285869364897103e-01, 8.537282198375543141e-01, 7.829659774085104829e-01, 3.710671433211222836e-01, 3.382033898161422858e-01, 2.390769968285558489e-01, 5.037612512463509606e-01, 2.987929687335690865e-01, 6.401866257890341805e-01, 4.285554968905262718e-02, 2.044094597557986615e-01, 4.753100262920418873e-01, 7.113020249293355857e-01, 7.650620333782651716e-01, 6.766059368311231337e-01, 9.522234992123524977e-01, 5.325558456145105257e-01, 8.570222076919677828e-03, 7.193035135895279319e-01, 7.434171583617561752e-02, 2.799373346020746500e-01, 6.519333417490160709e-01, 6.226139200006578500e-01, 1.356909064872816040e-01, 4.599967100171309387e-01, 5.018111618890365166e-01, 2.671286335394790767e-01, 3.035305800156283262e-01, 7.032688321743528759e-01, 4.405225829603344745e-01, 1.853853590096137816e-01, 6.747543651200002546e-02, 4.808607743490684316e-01, 9.821258923621757342e-01, 3.605485673890766463e-01, 4.029844612916329005e-01, 8.296286461904958109e-01, 5.287821149822052869e-01, 9.922896996013542692e-01, 5.563943949393781452e-01, 9.199490343660481351e-01, 2.448462113577810906e-02, 5.784735420489452995e-01, 1.245077401491978403e-01, 1.348427204091337496e-03, 4.937440074059440964e-01, 7.656524890521293480e-02, 9.346984636157983362e-01, 9.813000626205349297e-01, 9.259809130623883888e-01, 2.389169476499423961e-01, 4.605259857858419181e-01, 7.649564870785576787e-01, 7.372708052795654554e-01, 1.417670171068859952e-01, 2.855676045536289509e-01, 5.597528198525894005e-01, 2.949545128648490278e-01, 4.541963909658513487e-01, 6.081271349488676092e-01, 2.022515858698519520e-01, 3.297963980210285584e-01, 8.088198263316048742e-01, 1.883949411786274286e-01, 6.554005888655736189e-01, 3.427503882903877863e-01, 5.518426226959274317e-01, 7.474187477684500480e-02, 5.284298997110413731e-01, 1.544697361109625966e-01, 6.719589929978826426e-01, 3.410720764650521097e-01, 5.148481905569083361e-01, 2.134421812423840381e-01, 6.569983652297626264e-01, 2.869323466124956146e-01, 6.080059669356345786e-01, 8.614136420832897434e-01, 6.801544096893750169e-01, 7.436760621415769990e-01, 7.228288258839761227e-01, 9.693275752478224261e-01, 1.224813672549131538e-01, 3.854581061586350166e-01, 1.080963111480561095e-01, 4.046120646247453045e-02, 8.257336990723227466e-01, 9.068720347958924011e-01, 6.411553003874487233e-01, 2.502478060449557784e-01, 5.528627344107018837e-01, 6.694409708247053281e-01, 1.430682522905296905e-01, 4.921271676937853945e-01, 2.493578768939771206e-01, 7.885646913825594684e-01, 3.990117241340203624e-01, 3.218658795043403131e-01, 6.049103573872034734e-02, 2.732643704279981711e-01, 7.010686018984967349e-01, 7.917974602360847713e-01, 7.038318029416448240e-01, 9.618451694830014720e-01, 1.072548317465423923e-01, 9.372316483377116647e-01, 7.539892155133549601e-01, 4.545962942165797660e-01, 8.288318620759719257e-01, 7.884603057031456252e-01, 2.162296378131504937e-02, 6.791858447478203720e-02, 5.906811190707528247e-01, 7.358490542162253734e-01, 6.170669824164854989e-01, 9.344214500285594749e-01, 7.224601889891396622e-01, 4.850404690752554981e-02, 4.083151177798902132e-01, 8.505370943161543185e-01, 5.196430967462524197e-01, 2.878867348233640766e-01, 9.219085547505735390e-01, 3.988351044029316839e-01, 6.184833897376297296e-01, 1.156060121841619159e-01, 4.772163325569550585e-01, 6.110286927667029078e-01, 2.764069346973722641e-01, 8.453563835723526543e-01, 5.595635502393464522e-01, 2.435537110563908147e-01, 2.273776473448131663e-01, 6.112775590867252501e-02, 3.252987866397886174e-01, 6.780050965818956721e-01, 6.437835923645254255e-01, 5.796312761798591007e-01, 4.692930928822162118e-01, 5.983777373586861570e-01, 3.174450405002799402e-01, 1.816931181307708532e-01, 7.239184129865386952e-01, 3.403114544219112414e-01, 8.135325267104221991e-01, 3.909291341338516634e-02, 7.002482713279136739e-01, 7.334045243564440986e-01, 2.786324952297345448e-01, 8.292780632324130430e-01, 7.882233740028325997e-01, 3.987685649958990636e-02, 2.506198218033053315e-01, 6.155343023148192039e-01, 9.799572298346367338e-01, 7.879440141830150734e-01, 7.246546188392904986e-01, 2.387639239846904571e-01, 6.305885092532561575e-01, 1.654537211065454649e-01, 8.335141347652719190e-01, 3.879705581389272240e-01, 4.362101886848454568e-01, 1.020359713235380744e-01, 9.696243291933441810e-01, 9.644146518408921454e-01, 4.614309218182214845e-01, 3.666579954493346394e-01, 4.292253577449274271e-01, 1.169367495111961336e-01, 4.603214894259738954e-01, 9.650456106754701224e-01, 5.625014550026188331e-01, 3.897459963109991543e-01, 6.177437748194412187e-02, 4.055199536454395237e-01, 6.061994965382117018e-01, 3.180867540350306721e-01, 1.676235325927091183e-03, 5.127878139271309088e-01, 1.504024058893460303e-01, 2.514199898953507484e-01, 5.448990605443606583e-01, 7.334639498701777116e-01, 5.379113035352527383e-01, 8.063769041035921958e-01, 9.060633602636791739e-01, 6.522292870575410184e-01, 1.728301525979205611e-01, 6.559835475979178820e-01, 7.278725657364598645e-01, 5.432050399932965012e-01, 9.864304218411306113e-01, 5.522385466855483926e-01, 6.274819383847896059e-01, 7.322328838475777868e-01, 8.348657999835452648e-01, 9.493755040288431868e-01, 7.861746117736500006e-01, 3.576571535165672389e-01, 4.770435281535744254e-01, 9.563146186148151484e-01, 4.592707287470489813e-02, 7.762744280100414285e-01, 4.690560769414051645e-01, 4.288373891858116016e-01, 5.512796294393266239e-01, 9.545953761109629565e-02, 8.755752817118934717e-01, 5.804213422992022808e-01, 6.099565464255595204e-01, 9.184870877067886630e-01, 1.185648766912189150e-01, 2.357636888187707447e-01, 8.321550878346956059e-02, 2.355951056713468938e-01, 1.046769551227750145e-01, 3.956266275627202678e-01, 8.051336274392066894e-01, 4.690398805949826805e-02, 1.825162179984753108e-02, 5.104004100999661730e-01, 3.516004025421006207e-01, 6.297794124974024355e-01, 3.609415601046703781e-01, 3.582139835560235741e-01, 9.017564861395698239e-01, 3.989830595861328377e-01, 4.511492148678726277e-01, 5.679632475268516778e-01, 9.977963324399352629e-01, 2.748969106808501484e-01, 1.541437056211765744e-01, 1.274192889368364612e-01, 1.582694884064289598e-01, 1.468304575462553163e-01, 1.960535769898053560e-01, 4.182847825648544071e-01, 7.398892771848870620e-01, 4.833815209601445839e-01, 8.611033360904847556e-02, 6.980538603021514410e-01, 3.595002695055821706e-01, 5.846824971434054774e-01, 4.447063408328438827e-01, 8.731350719506244529e-01, 1.273061437934263074e-01, 1.155924923810094512e-01, 9.540360180417311042e-01, 4.618655241134480560e-01, 3.131778252285587483e-01, 9.610990614234607432e-02, 8.163133820155422660e-01, 1.263503240191312105e-01, 5.552088720006462808e-01, 4.591564452968807108e-01, 9.851816604751670869e-01, 6.020481811374206460e-01, 6.224670995121691641e-01, 5.662220968766988882e-01, 8.750700766027030841e-01, 8.842391376513653034e-01, 1.618889574660969111e-01, 4.190980456878503624e-01, 5.547667348147620192e-01, 1.385335943191313979e-01, 1.990036703438802235e-02, 8.413323393958404006e-01, 1.695518546799405224e-01, 1.154148993387916072e-01, 8.971215547886657316e-01, 8.787994077818502836e-01, 7.659638951901308612e-01, 8.397682880329254695e-01, 3.170684037463775695e-01, 6.782373779186322560e-01, 1.113856302483925143e-01, 2.346018706075032878e-01, 5.570405950552933527e-01, 6.634666189986215823e-01, 2.874997565110984366e-01, 8.949822481148206332e-01, 8.505486593728570632e-01, 9.591607708861898951e-01, 2.865294599179814550e-01, 3.847300305298673728e-01, 2.991983409949358283e-02, 2.838285313128013354e-01, 3.075610874162381519e-02, 9.893842716513951974e-01, 2.535024239481207253e-01, 1.581282828153240672e-01, 8.702003083779784598e-01, 3.356699531966215178e-01, 8.452031274657814119e-01, 4.961860989262181776e-01, 3.970533027243023927e-01, 5.546379089064211731e-01, 7.756944516608296203e-01, 2.070544003554307053e-02, 5.331305234627050638e-01, 2.213409547979129921e-01, 2.133835770193527048e-01, 5.052505207016059208e-01, 8.444584856759125291e-01, 4.251823009104607753e-01, 4.767377175295751668e-01, 2.763201284559242965e-01, 1.423839073731004712e-01, 6.252819154271736790e-02, 7.895098817296593019e-01, 7.546988020890914584e-01, 6.017736194226199764e-01, 2.915277651398913150e-01, 8.710617200509883640e-01, 9.476391890970201071e-02, 2.827930911142553794e-01, 3.194791909197445823e-01, 5.846647762972783102e-01, 8.850150183026431749e-01, 3.571641041794656468e-01, 3.383616736977073432e-03, 6.820073720778100368e-01, 9.794736548115999808e-01, 4.460240360990433972e-01, 2.414726918379805354e-01, 6.762180290277752803e-01, 2.233948847485506262e-01, 4.616022876407135378e-01, 4.026682934762810806e-01, 6.260960553065222367e-01, 1.498395248289141890e-01, 1.568860073829025925e-01, 5.925032298401379516e-02, 5.988086505692927775e-01, 5.278870688465540084e-01, 6.091225799332360413e-01, 1.665847858427758066e-01, 7.463796208460280468e-01, 3.623286009835738897e-01, 4.845225938779138541e-01, 7.671680804397201792e-01, 1.450873137863747109e-01, 3.525110598441043575e-01, 6.040510154322529246e-01, 3.251788355664483876e-01, 3.853231527085350105e-01, 7.387005355330602541e-01, 1.196722553731102145e-01, 2.234428788363277407e-01, 4.491745820539950196e-01, 6.255486905885064841e-01, 4.372957161959625805e-02, 8.827913678829383270e-01, 5.673707914788431728e-01, 3.201124647404725021e-01, 7.626355539712778020e-01, 1.713082807674699282e-01, 7.977477147082716602e-01, 4.746899536397707342e-01, 3.420176657040771007e-01, 4.169904324478854868e-02, 5.191513494363156345e-02, 9.844931823947131733e-01, 9.748726359880771630e-01, 4.174422471298503967e-01, 5.086788400061322823e-01, 5.222170025345351796e-01, 1.564988995253199233e-01, 7.499607547871092184e-01, 5.242028130597818913e-01, 9.699911194610734422e-02, 5.002011781517684552e-01, 1.883074210744377919e-01, 1.294781519621671928e-01, 1.009553773522004344e-01, 7.399537591552992621e-01, 1.057321061447141775e-01, 1.745359878101279683e-01, 2.189812111800225891e-01, 4.393455148472159150e-02, 4.536560828455006300e-01, 2.533867532781839960e-01, 1.701207803992078882e-01, 3.014777396979796964e-01, 4.041811100757140007e-01, 5.086485463828785969e-01, 8.727545031732042435e-01, 9.952698563135041754e-01, 5.578012939966497941e-01, 2.086610447607097629e-01, 3.889242625958452271e-01, 6.583289912778028663e-01, 1.609858920280499150e-01, 7.799592219200824905e-01, 5.795497293155935647e-01, 6.466980023397761457e-01, 2.163957323133250954e-01, 7.631005810146043178e-01, 6.214849163488777029e-01, 7.528665071963585032e-01, 8.505782141963050824e-01, 3.452040598246043368e-01, 7.267778193989188340e-01, 7.796451210111698948e-01, 8.187541206223146739e-01, 1.899899506301516439e-01, 8.046626429465061348e-01, 3.122921809953225769e-01, 6.043134454538829914e-01, 3.095929797107685455e-01, 6.522559522444464353e-01, 9.591564577514577472e-01, 4.980569611942343711e-01, 4.530825742688613378e-01, 8.254659073396590774e-01, 4.265657700015793585e-01, 4.365738552528362071e-01, 6.546638603319701044e-01, 1.727550607951623685e-01, 6.398577247122391176e-01, 9.016442831534180469e-01, 6.011428063224708573e-01, 2.488904538770502495e-01, 7.926603059362367087e-01, 8.869785368346160270e-01, 3.406336048558822882e-01, 8.059838609045039126e-01, 6.167020134938590026e-01, 9.638361658183171032e-01, 4.824100621662995997e-02, 6.232661012038539505e-01, 5.023654790825368699e-02, 2.546612825467281516e-01, 2.759911117282815018e-01, 7.296064484017591445e-01, 5.009466550670800267e-01, 3.111096107436225333e-01, 8.946503890730704567e-02, 3.904034510705683969e-02, 1.736788080475056284e-01, 7.109799474851022927e-01, 2.919244928740020728e-01, 7.845458371047308033e-01, 5.293967742345127014e-01, 8.350954749172206926e-01, 6.736643148182451801e-01, 8.573526800089525945e-01, 3.054667905618232426e-01, 3.327886797980230127e-01, 1.717976476162166033e-01, 2.795113785808566176e-01, 1.398572472923507171e-01, 5.051246062034532303e-01, 4.460540326667356559e-01, 3.308745030709477897e-01, 4.395733178759398396e-01, 6.041700238727187866e-01, 8.562809384848241168e-01, 8.199787636119125755e-01, 3.067177036793355613e-02, 9.656712134911018541e-01, 4.783126534561320531e-01, 7.489097980358105922e-01, 7.631598153829851627e-01, 1.848500753872130142e-01, 4.107753598372575893e-02, 9.741836679793466347e-01, 2.041864929832511166e-01, 3.345175268780475331e-01, 8.588480719129176766e-01, 7.430088212116724433e-01, 9.009811485700165434e-01, 6.389146084275494630e-02, 2.818926475786454611e-01, 1.634957126893345492e-01, 7.755919350072336682e-01, 8.165112160317863355e-01, 9.965305201905664267e-01, 1.717197144184315627e-01, 5.447795832429198626e-01, 1.683312759192567287e-01, 8.582521015471005210e-01, 8.902600342654353183e-01, 9.253014566939614660e-01, 6.392671649474580553e-01, 9.355199040096974228e-01, 4.486967680318018625e-01, 4.767780062966662236e-01, 7.820948694857045025e-01, 4.039896235714310335e-01, 7.772091914316304750e-01, 2.583229586122662846e-01, 4.585119290297954842e-01, 5.067661974741362041e-01, 3.315141118612787152e-01, 7.603695571201745107e-01, 5.596301511490214819e-01, 1.762755969876861895e-01, 2.432578101284192940e-01, 1.627070200630911512e-01, 3.112725341974845739e-01, 3.511164963599855970e-01, 5.590525684198832668e-01, 8.012763264910257588e-01, 2.454590850479644037e-01, 8.498803434702709714e-01, 3.066508190823547531e-01, 3.746664821730860684e-01, 4.418922828142716752e-01, 8.834277490431556856e-01, 7.673261216254283479e-01, 2.241444387915915715e-01, 5.137659597723204241e-01, 3.292434680872572961e-01, 5.898240928461882110e-02, 6.504815220394775110e-01, 5.901330823040883411e-01, 4.237799912729729446e-01, 2.502862033640529393e-01, 7.577004024828615236e-02, 5.067521399593734044e-01, 1.231738546477140206e-01, 5.970121370403647099e-01, 5.890535249179665866e-01, 5.147225717854161386e-01, 8.292339347440040864e-01, 8.060555289613686725e-01, 7.980742652762444767e-01, 9.485233096314454881e-02, 7.899538940335378845e-01, 6.964598411561409019e-01, 8.601717512238841179e-01, 4.788889689585443254e-02, 4.228144786830048130e-01, 6.183580327335668203e-01, 5.964181644241017821e-01, 7.490071462978712402e-01, 9.637442816728158945e-01, 2.449983379859257404e-01, 8.122497666683624606e-01, 5.067989369067662508e-01, 6.621283715654499025e-01, 4.397790599150088187e-01, 7.827009006849094952e-01, 8.088273557008252013e-01, 7.323422520741790231e-01, 1.205904659892165220e-02, 6.922662634796927783e-01, 9.920992327502999863e-01, 3.134214427998337493e-01, 2.727018337539500181e-01, 9.321051392676831249e-01, 2.579137515114817703e-01, 5.944753060084161378e-01, 2.012075789671223247e-01, 3.279020304222097226e-01, 1.997919462610983909e-01, 6.977132042439116999e-01, 6.506737725817504092e-01, 6.709048807795973124e-01, 6.349936469996516619e-01, 7.085172787201046152e-01, 2.225628494375670504e-03, 2.371461797028137919e-01, 7.387246157630154020e-01, 8.803441226463163405e-01, 7.592657547591974421e-01, 8.461390989254848893e-01, 8.997712386806925311e-01, 3.192675418318551839e-01, 7.303998380349872865e-02, 2.485628611397599774e-01, 2.662574876989134420e-01, 7.540919094704227194e-03, 5.523724386763143590e-01, 3.765512359323769376e-01, 3.386603744664309357e-01, 7.122586948107249016e-01, 6.930589533456821272e-01, 6.314359320113417384e-01, 2.604162545563525888e-01, 9.219015022052960973e-01, 7.241889620613509715e-01, 3.275149698745623006e-01, 6.331968569433064076e-01, 6.553494917627816774e-01, 6.887423630770783678e-01, 6.590750489397126932e-01, 7.359817710140983404e-01, 2.158506998479802208e-01, 5.814492164158802101e-01, 7.684741015978929779e-01, 8.354296247183611301e-01, 6.969660298709455803e-01, 7.385596738057437216e-01, 4.671533984501735071e-01, 6.021496283919037795e-01, 4.851490113362815215e-01, 1.081196255898621145e-01, 5.512283754414989412e-01, 8.670228291874997328e-01, 5.074863008034833367e-01, 7.463060137651981174e-01, 5.489567303943196919e-01, 6.886534684123311045e-01, 1.143196086611001847e-02, 8.403314447637679763e-01, 9.422432497510956351e-01, 3.735303241539792984e-01, 6.587560822199226562e-01, 8.286641852688212406e-01, 8.935364616183365527e-01, 1.766384856863626729e-01, 5.260976660449911968e-01, 6.168385301451235758e-01, 2.948668080298408878e-01, 3.218972097345197958e-01, 1.344876473401213635e-01, 8.132793054049879400e-01, 8.506668364807813409e-01, 6.514447764846785782e-01, 4.488458829805730410e-01, 9.249968273355411996e-03, 3.103391731040344714e-01, 4.787580335465395631e-01, 7.642288954606853979e-01, 4.248239589366949454e-01, 3.419209538875231380e-01, 1.660741480579603080e-01, 7.766946464012496332e-01, 8.973124643331467087e-01, 7.924560219774855474e-01, 3.173813760260690287e-01, 8.502155296808917573e-01, 1.018915994920788493e-01, 7.447596586454408030e-01, 3.186688048216574365e-01, 9.731588895433558317e-01, 7.696974999473943368e-01, 4.215797025132771159e-02, 5.299356074153217105e-02, 6.999431077594215900e-01, 8.025366486068080674e-01, 3.399257726903721633e-01, 9.278755650861497672e-01, 2.781738710547767557e-01, 4.770625800647315118e-01, 8.146150104428682148e-01, 9.276639596168297919e-01, 7.419898754555681597e-01, 7.607950285065716300e-02, 6.688137649367700277e-01, 2.454729570486912094e-01, 4.425510689697881306e-01, 5.761104400327750064e-01, 6.736320088472999013e-01, 6.539213140094937704e-02, 8.418958465704821093e-01, 2.629574888068552108e-01, 8.234726997727733755e-01, 3.962150908561804519e-01, 5.588474177998067338e-01, 4.006345385211115273e-01, 7.479058900398347642e-01, 5.620468310459986183e-01, 8.479278746440362946e-01, 1.114663444300773160e-01, 9.026373599564267713e-02, 6.877397776360791859e-01, 3.611057331383729641e-02, 9.172218598347458007e-01, 2.721915347032438093e-01, 5.464654199458737205e-01, 2.321654702701631268e-01, 1.053754396408867061e-01, 7.563536750664404118e-02, 5.014760174287660188e-01, 4.267586972818158686e-01, 4.369932654980632769e-01, 9.474248198125163611e-01, 4.418763121530771415e-02, 4.660675258422611322e-01, 4.666946853038836940e-01, 7.313720345060474859e-01, 7.995707086517154227e-01, 4.958810095637832815e-01, 9.259230934188084072e-01, 3.670647473892013624e-01, 2.925795231542147046e-01, 6.035359414044021431e-01, 3.277669343040154337e-01, 5.474412997808915105e-01, 4.709950301039110832e-01, 1.413557376731410797e-01, 4.526129317339447899e-01, 2.143578664796047528e-01, 1.360497278438759228e-01, 1.284489526291837935e-01, 7.290953193508376007e-01, 2.647723312297385889e-01, 4.873091570338758949e-01, 9.924533698030538753e-01, 1.389398971804185479e-01, 5.804541086130109440e-01, 3.405433635260746161e-01, 9.767388706632460504e-01, 6.070318639969766172e-01, 7.763318435910312454e-01, 2.152234956820140710e-01, 6.544727909284061562e-01, 3.772595016533294987e-01, 3.308924301279482783e-01, 5.369940402146533565e-02, 9.270344991627388342e-01, 2.503434469824789010e-02, 2.662174943496078416e-01, 2.288745517604327262e-01, 7.483459610943800078e-01, 4.491478938003858057e-02, 2.270979859643477428e-01, 7.307013139272361402e-01, 2.128770662441171468e-01, 4.887668261728608243e-01, 6.325144067063689368e-01, 4.342264093153826998e-01, 7.960112500585682094e-01, 2.320203171500492545e-01, 2.618394009607246109e-01, 8.514488768049608414e-01, 4.988554501510220618e-01, 7.206847490292398462e-01, 1.589543642345552510e-01, 8.869686920065322777e-01, 3.715318983198026559e-01, 5.968732493893738056e-01, 1.427977476415273894e-01, 9.974908321104380970e-02, 6.796248406961001853e-01, 7.802478616567013470e-01, 9.953216610704007650e-01, 9.911519121086914685e-01, 3.067445384886786641e-01, 9.483733630617412480e-01, 1.925200153757610499e-01, 4.136310673297347723e-02, 6.647494466182455319e-01, 5.456754263636760527e-01, 7.114315353631625038e-01, 9.172798846236677184e-01, 3.363969906778921382e-01, 8.422553274221680208e-01, 8.670952306965333811e-01, 7.931168011316271915e-01, 6.797821731442710291e-01, 2.042370007859682091e-01, 7.268667854865498157e-01, 6.465535611193190535e-01, 4.137773929727523448e-01, 2.648211428506952458e-01, 2.665080498789234031e-01, 3.748531908543354385e-01, 5.809988787598243665e-01, 9.281679934961403755e-02, 1.117014192348297491e-01, 2.286842562316812044e-01, 5.696907569780280678e-01, 3.839515590475795492e-01, 7.157594620156642051e-01, 3.555724555672654663e-01, 6.774066976524732997e-01, 7.706323926652330902e-01, 9.899369587577330765e-02, 9.219194341746408394e-01, 9.194493682511000188e-01, 6.617008121245544494e-01, 9.894294028414687414e-01, 9.545437621181956933e-01, 3.668455155761442543e-01, 2.671336377368156434e-01, 6.312611201099073144e-01, 8.405061672831332098e-01, 2.184778790804074444e-01, 9.778630457085377703e-01, 2.486629185846430667e-01, 8.516110624251871375e-01, 2.347628929810526704e-02, 4.417424071284622999e-01, 2.093711887992200094e-01, 6.443434272226654380e-02, 6.905161028426993752e-01, 2.755452960852348698e-01, 8.479586112312520463e-01, 4.128226913236724971e-01, 2.198497805316220743e-01, 8.429729483034270610e-01, 4.779613151923057801e-01, 8.251558034959965982e-01, 6.701590776927272008e-01, 3.745793625896268741e-01, 2.616783434801948083e-01, 7.045896337276845722e-01, 8.476828331783837767e-01, 9.409422057198033595e-01, 7.365057254254674390e-01, 5.551852572171348532e-01, 5.926298414101199841e-01, 8.538525323482264451e-01, 5.182427152124653436e-01, 3.225459049665656275e-02, 1.549582350971217548e-01, 6.745500984131491684e-01, 5.199211608397062978e-01, 3.901439620259474217e-01, 9.722001522586696254e-01, 9.755685555813102816e-01, 4.829040388368696091e-01, 7.134033976841832603e-01, 9.298238394683310259e-01, 1.647700538815249222e-02, 4.058976690358904182e-01, 8.612159257770622967e-01, 1.050268375758932615e-01, 8.708261124215010973e-01, 4.420439204414201018e-01, 6.099478540935032722e-02, 1.298636820895989752e-01, 2.594343948711104186e-01, 5.502649133150293581e-01, 6.001053960167112011e-01, 7.255866921039270112e-01, 2.256194221374609732e-01, 8.761442376661047193e-01, 3.875091233338019969e-01, 1.306953706568830531e-01, 2.354115803437377696e-01, 6.341679694222276398e-01, 6.034798468694245743e-01, 9.099020114586501284e-01, 9.370891939219889721e-01, 3.270635009057074605e-01, 8.566420468325374182e-01, 1.466806229444732879e-01, 8.002785411313801944e-01, 8.683073840075203886e-01, 8.891528996335043011e-01, 2.775289933849026669e-01, 4.050445812799838841e-01, 8.194562540373566684e-01, 4.317617785008493470e-01, 6.004310983513242439e-01, 7.713466280609242443e-01, 4.883470618026741761e-01, 9.480665171129024071e-02, 5.996735941362031364e-01, 2.814310520292691020e-01, 2.022369608867237156e-01, 5.693252874853895612e-02, 8.698449265233116900e-01, 6.379429250405792562e-01, 7.493610377146201484e-01, 2.475988219671692581e-01, 1.261430405527796395e-01, 6.500961255423959306e-03, 9.814770529266925170e-01, 7.047377573681986584e-01, 6.810707601915991782e-01, 1.562167372559726541e-01, 7.971331080931643998e-01, 8.204927389550779049e-01, 9.328397007847073485e-01, 4.398360301214300216e-01, 1.176359858334383723e-01, 3.324739001576180325e-02, 8.293902704363718126e-01, 5.050394475192873101e-01, 6.724860315038767578e-01, 8.182571502114169837e-01, 5.269615778683081064e-01, 2.023731780072321185e-01, 3.502850555182007164e-01, 7.423267322832090009e-01, 4.422347660732202090e-01, 6.470568746792628723e-01, 2.605117336644268700e-01, 2.946562331834145509e-01, 6.033064892262409717e-01, 1.183565992172301747e-02, 4.671277205607945460e-01, 3.033208465185409722e-02, 2.070446491913175702e-01, 7.285208221534856809e-01, 2.236953325228440981e-01, 6.033812510521779915e-01, 2.118507244538733736e-01, 5.319312727895989662e-03, 6.185576019745642196e-01, 5.713203366361253588e-01, 5.116031607542971260e-01, 7.439740356923818521e-01, 2.534191644729706927e-01, 3.589339180162653964e-01, 2.310414476769536152e-01, 3.175432028445618338e-01, 3.633616371369313147e-01, 8.253055838227133512e-01, 7.290989312698921143e-01, 5.365390993446700341e-01, 9.155192839653805616e-04, 1.936215411162934275e-01, 8.286719706125067475e-02, 2.654736723315169189e-01, 2.710912713422012135e-02, 7.833629802896010519e-01, 4.625721607232387012e-01, 8.529481401069773927e-01, 8.400488042789360232e-01, 8.204776760903252919e-01, 2.661533365992646560e-01, 9.674593881301625509e-02, 3.423772004383396350e-01, 9.248954440500837260e-01, 4.763147778413132638e-01, 7.141270785730445825e-01, 3.759505240238378287e-01, 2.798578120589648166e-01, 8.942868855130585715e-01, 2.082216855671815969e-01, 6.605048472848839003e-01, 7.991848929706196758e-01, 9.668311947580552346e-01, 8.048644975188001816e-01, 1.852541122549792307e-01, 3.924299017197224737e-01, 4.679153815453780951e-01, 3.789964182551228689e-01, 7.303765939536518426e-01, 1.411392529478953384e-01, 7.757437783194675029e-01, 3.845917041644711376e-01, 7.846121421096710069e-01, 9.011205081696717079e-01, 5.793331045718302930e-01, 5.427660357974136707e-01, 6.228272465654787204e-01, 1.148874226229493478e-01, 7.354167974616183934e-02, 7.949313742763927659e-02, 2.941251435334802933e-01, 2.794188263788461857e-01, 7.993289364409014164e-01, 7.914085439744732442e-01, 7.289271436503396151e-01, 2.721938584907266367e-01, 2.146704755195393693e-02, 1.619460935275055247e-01, 5.959309924682612003e-01, 4.391727944642029868e-01, 5.685027332664598781e-02, 2.199456451183515737e-01, 2.162589962225497098e-01, 6.536438068523923173e-01, 9.009073677737331476e-01, 7.819388447533086595e-01, 2.155017336488493709e-02, 3.826572824296212150e-01, 1.037367619285406434e-04, 9.266883115556953099e-01, 4.293629394961353540e-01, 8.177634838255415373e-01, 4.470817322619454193e-01, 4.873315311954432016e-01, 4.394625346055182069e-01, 2.054409774011791978e-01, 7.498799103790007026e-01, 3.378734510103846289e-01, 4.792857567246882056e-01, 1.727390009630447310e-01, 5.229377577045962733e-01, 7.933130057595851881e-01, 2.039927538354949776e-01, 8.659542056167131019e-01, 4.459147489585927326e-01, 3.239750653747193176e-01, 2.727069300589493595e-01, 7.460459502482129635e-01, 1.213956351199108920e-02, 2.975253372474097047e-01, 2.639129832193332081e-01, 3.731365900100664379e-01, 1.240845222428703654e-01, 2.988142223131410313e-01, 3.279607716397968664e-01, 2.152050590300419175e-01, 3.954408720947593103e-01, 6.528289520097521614e-02, 3.969016721902670075e-01, 8.353514066180174336e-01, 3.554656895610413536e-01, 6.711524882572706963e-01, 5.087222747588547866e-01, 1.731245993294749097e-01, 2.828426206566068135e-01, 9.920413379696030320e-02, 4.715514347381317695e-01, 5.478239710465754309e-01, 9.482297104981837199e-01, 9.898389595697734133e-01, 2.185196891992433610e-01, 4.656939960368370324e-01, 8.587759630133616762e-01, 3.804634070415002789e-01, 4.571798177258037249e-02, 3.558965160151257856e-01, 9.627437777551547393e-01, 4.467254486626656140e-01, 8.403326343658158448e-01, 8.643867712102293321e-01, 6.224704967145175960e-01, 3.378623263342714900e-01, 8.530561824421885042e-01, 3.992658404781204151e-01, 5.128357939982449709e-01, 7.648367780368061641e-01, 2.313246561548221447e-01, 9.245024125645291413e-01, 6.917850608654253497e-01, 1.023332900656748479e-01, 2.771109425393519093e-02, 4.592206174892431436e-01, 2.582356301909570773e-01, 7.423106844979456831e-01, 7.787713649655808590e-01, 3.030759623058129071e-01, 8.098298566936892318e-01, 1.840340558458708198e-01, 3.169563725666423304e-01, 5.589957314521476484e-02, 6.983738507156357356e-01, 1.612735018641061335e-01, 6.351606270509601027e-01, 7.710689766510863130e-01, 8.473286734232520212e-01, 6.952706335643585867e-01, 9.593836158541888537e-01, 3.285269514653437195e-01, 1.881332372902007333e-03, 3.516990414047900804e-01, 4.959502616922345508e-01, 4.186346946512901623e-01, 9.181189684063821854e-01, 1.780818990463514315e-02, 9.662296601169461097e-01, 2.647527458821524737e-01, 8.280779911795718151e-01, 4.233884597511301529e-01, 1.361114251312364742e-01, 3.237603472600634191e-01, 8.210614641244885492e-01, 9.222203691862944364e-02, 6.422455724669803301e-01, 3.422949766894399226e-01, 1.390136088512105572e-01, 9.994163342145339080e-01, 9.455175962049255922e-01, 7.130876643523126335e-01, 5.375913190900017957e-01, 7.342506648908371236e-01, 8.620765855873775418e-01, 3.380728228673606783e-01, 9.889968447697615739e-01, 4.753681444474407436e-01, 7.576232648993653541e-03, 5.780625286296143805e-01, 2.843540333279081372e-02, 2.268392499583437860e-01, 6.775467058012115684e-01, 6.190775918841143755e-01, 3.412418978798906211e-01, 4.191258049382217132e-01, 7.658719189725924359e-01, 9.572360671898397788e-01, 3.516252246493949130e-02, 3.126211099568590446e-01, 5.826363878760412174e-01, 7.963392466530300196e-01, 4.724212538971288566e-01, 1.004924572589599857e-01, 9.436234500920879231e-01, 6.956065082999381977e-01, 1.030282808567896738e-02, 8.854485075613087730e-01, 6.357047564792457361e-01, 8.888295831285465687e-02, 1.602236526218022705e-01, 5.245605447600986543e-02, 2.875871212701528248e-02, 9.612497108552585656e-01, 9.410648673065493686e-01, 1.411437350089724263e-01, 2.093209918332927799e-01, 8.499472327406757399e-01, 6.219051404347234469e-01, 5.983227528496412040e-01, 1.968950067620878486e-01, 6.715635516314470976e-01, 6.102762515115647268e-01, 5.264236222930884779e-02, 3.999165127948964282e-01, 7.158060606788976266e-01, 2.051374080990134643e-02, 6.324518422188110112e-01, 8.968628138922170034e-01, 3.962650249564510507e-01, 9.782055212027105373e-01, 3.431856258631691414e-01, 2.190528620281326777e-01, 7.650349525375946813e-01, 4.153760770308886907e-02, 1.047352582382551356e-01, 6.857490780883428449e-01, 2.795528246180500331e-01, 3.320081453245126157e-01, 6.324325365111150843e-01, 1.083778483993891456e-01, 7.556929982985668426e-01, 8.582660158835699882e-01, 6.717845112754177173e-01, 5.466885550843054720e-01, 6.364441998719476412e-02, 7.459554373508081593e-01, 5.783470832505773762e-01, 7.524214370471169477e-01, 9.597553895462573870e-01, 4.111748931204331492e-01, 2.104178143876169194e-01, 3.483497769409171774e-01, 3.473692978840839385e-01, 9.192145553428264781e-01, 8.402473876179805679e-02, 2.080768628520454286e-02, 4.475930076559186260e-02, 7.181904377014555196e-01, 2.386243197954371065e-01, 6.846020266485358663e-01, 9.665197046686321292e-01, 7.379046585893245247e-02, 4.647052211161352142e-01, 4.698704658971710607e-02, 3.924852419643156676e-01, 6.766428874493640722e-01, 9.392782750709257611e-01, 1.785725030468054142e-01, 5.521122393032770193e-01, 1.590655988463329507e-01, 8.751572209413396308e-01, 8.125575023222710858e-01, 6.654669405421097528e-01, 7.135950263219199563e-01, 8.739753909668072085e-01, 1.567809064798481589e-01, 1.966627020851192953e-01, 6.353826540416797064e-01, 2.473182518767123028e-01, 4.693783708434334789e-01, 7.179867887237694202e-01, 3.113724039238052188e-01, 2.203630879682040300e-01, 8.643807637930129850e-01, 9.344062415570772995e-01, 5.926592699929852381e-01, 1.427848809073609115e-01, 5.496488225993215737e-01, 4.476093213013935257e-01, 3.460347535598448654e-02, 1.342923747862689310e-01, 3.090528458671830681e-01, 7.924535047235364837e-01, 9.080946438062506010e-01, 7.045596506598870157e-01, 7.461124646071682909e-01, 8.145318861836310376e-01, 8.502721717026580014e-03, 7.697276948382474338e-01, 2.839813624959549587e-01, 4.450552202629952658e-01, 6.174304463325084452e-02, 4.458629914675201755e-01, 8.602397516614023187e-01, 1.303108106805350025e-02, 2.602889787013423217e-01, 5.404840212817955958e-02, 6.956243330771358924e-01, 9.907379174319628223e-01, 9.850931689640051170e-01, 4.103025660741123348e-02, 5.762804578003635214e-01, 7.151933074984235805e-01, 9.664118557206275995e-01, 8.612491451449928725e-02, 1.002476145444137073e-01, 1.729339496214910357e-02, 4.396426569690791153e-01, 9.973812964405811554e-01, 2.336191702179770402e-01, 4.397631645292741642e-01, 9.824082015794105560e-01, 4.373924051762065335e-01, 8.547707107545122751e-01, 3.488929707302261263e-01, 5.504774049325230623e-01, 1.524680623926799594e-02, 7.334857705871804523e-01, 8.525847655562600602e-01, 8.319540447021606111e-01, 2.323062283673305722e-02, 6.241515409860594332e-02, 8.861125439238501933e-01, 3.730097491467270210e-01, 2.943309392939567615e-01, 2.892942628303558569e-02, 4.564144678930266985e-01, 2.231885272170667234e-01, 1.084223548155629352e-01, 2.893354331942958879e-01, 2.572638184206231249e-01, 6.378625631388992190e-01, 2.786819278848564480e-02, 7.049084260436111471e-02, 2.027798533761608346e-01, 8.853332856101849835e-01, 2.013655476832953706e-01, 8.800520291451223720e-01, 9.990786852585105127e-01, 6.290034304656761943e-01, 7.388742238012244168e-02, 2.922716357075981763e-01, 9.679768832706360238e-01, 3.122241647270203591e-01, 3.310701358217878476e-01, 6.061008712810451726e-01, 6.419413451755202615e-01, 3.461941897936227641e-01, 9.337421983049549734e-01, 5.109635423512032260e-01, 2.300185127509304928e-01, 8.235422377800381000e-01, 4.699569105193771579e-01, 7.102895869456889999e-01, 4.729980316261833129e-01, 1.536466471239246456e-01, 5.287602989470672199e-01, 1.595755410096124927e-01, 1.896206088405903017e-02, 7.635434508350492921e-02, 8.276776677445286667e-01, 2.170983389590409873e-01, 6.403409080092813399e-01, 5.590093323747540033e-02, 2.450919178316049163e-01, 7.716437879397899380e-01, 3.158649544464401937e-01, 6.364480936077439033e-01, 3.478472106868862324e-01, 8.267636163400078342e-01, 3.564613404287494403e-01, 5.430405465635115281e-01, 5.150268037911063246e-01, 3.722027541878599743e-01, 6.632389230043415074e-01, 1.351916354743054050e-01, 5.053172718316454315e-01, 5.660073319414475890e-01, 4.133518500589304923e-01, 6.934833477151908232e-02, 5.697141634023367152e-01, 3.181350433381518461e-01, 6.096045475249550760e-01, 1.117987240963536771e-01, 9.502652754237955746e-02, 1.022487536275627218e-01, 2.355971413669131487e-01, 9.729989204856800411e-01, 1.134139160683071135e-01, 2.203532537188430396e-01, 4.789922092832132189e-02, 6.449732643955686795e-01, 5.184268257340495234e-01, 2.604385266539128718e-01, 7.899585002223153962e-01, 2.300443514342800644e-01, 6.027601095021121180e-01, 2.872989158519602126e-01, 9.056516564302263816e-01, 2.575452587121318526e-01, 2.507366713512897971e-01, 3.828792478787502174e-01, 8.388653556829102076e-01, 2.088582849573941136e-01, 5.497920806161636920e-01, 9.081645467734225097e-01, 9.501495244003792251e-02, 9.413005362984487867e-01, 9.878994024518742423e-01, 9.687407817192893456e-01, 3.659275528470706251e-01, 3.859673911993317663e-01, 2.079728900068214814e-01, 3.467684806476736270e-01, 7.296450207329454596e-01, 6.618193419530919996e-01, 3.318681940726331270e-02, 2.654099659819124657e-01, 6.657848432625765311e-02, 2.043894611543696782e-01, 6.683471556351244791e-01, 8.326730018370692710e-01, 7.791577121273566275e-01, 5.078957295164682195e-01, 8.484095175417709633e-01, 1.081490934452480485e-01, 8.276333740897839908e-02, 6.217910048753252372e-01, 6.046516433003177315e-01, 3.835777820422335838e-01, 6.417408909715793808e-01, 9.144341381159141191e-01, 1.438284537308422151e-01, 6.340667871521996624e-01, 4.655665745745039552e-01, 2.434121515179589190e-01, 3.485454623089391246e-01, 9.509169972071745969e-01, 3.003227293163690179e-02, 9.699906203392539839e-01, 3.500752330330449413e-01, 1.569633259890934052e-01, 6.070997775864844792e-01, 5.894023902346114951e-01, 2.437497619517568492e-01, 9.055463333893258859e-01, 6.727826407135187869e-01, 7.688510642130590433e-01, 1.839193151186543640e-01, 7.045449300650017399e-01, 9.668084897717097448e-01, 7.742796916476299973e-01, 9.760998762846712085e-01, 8.898105445565437366e-01, 9.910755153975771004e-01, 8.100069179670134067e-01, 1.187709764763349995e-01, 9.556486849120336968e-01, 1.205787738048378077e-01, 1.664360771759234442e-02, 2.251759588530522216e-01, 1.574247966205780114e-01, 6.316644331211095087e-02, 4.530194569156472117e-01, 4.640008088638162831e-01, 2.527664487975119223e-01, 2.639278986984107400e-02, 4.662192809990097220e-01, 5.128886979819371472e-01, 6.211647477746868873e-01, 2.374617450606406749e-02, 3.908432971297647884e-01, 3.143820333756670027e-01, 3.518083896245096098e-01, 2.008253227885204162e-01, 9.098256446659803709e-01, 3.650814580545299615e-01, 3.473093490236914271e-01, 3.479620014849654219e-01, 1.739224487294520893e-01, 5.242173617389169760e-01, 8.259438489348415180e-01, 1.269100596567226125e-01, 2.304947111454624664e-01, 8.709477399848311041e-01, 2.107450394502791979e-01, 4.040516476872463847e-01, 3.291862891327736462e-01, 7.484256708118909307e-01, 4.439349828672579101e-01, 7.229683617245049598e-01, 4.997534903841779341e-01, 6.809732321717980597e-01, 8.406111388698295217e-01, 6.839903219094476405e-01, 3.826326202412248523e-01, 5.941858597116490559e-01, 4.909621146970186700e-01, 5.027683459126368604e-01, 2.206075731667365980e-01, 4.587827733021041521e-01, 3.417997077150391853e-03, 3.122346601346904782e-01, 5.774822413455804604e-01, 9.535864002446557963e-01, 5.092721005635327813e-01, 5.799684020955591102e-01, 9.087357288429289692e-01, 1.209541655569047330e-01, 1.925648573611633274e-01, 8.287733377750416963e-01, 8.368285814475218132e-01, 8.379911523146977848e-01, 2.080526017348888462e-03, 6.400397041719722013e-01, 9.399044392346758148e-01, 7.907038953231699807e-01, 7.471987591170714538e-01, 3.195507599890883288e-01, 8.514678876172381283e-01, 1.915566088705102643e-01, 5.477866741357405589e-01, 3.943911494428042203e-02, 5.456823506596797380e-01, 3.240489174296325159e-02, 4.465126681587516799e-02, 6.132245192383670718e-01, 3.401246103844802193e-01, 3.809509280706110390e-01, 1.231237534503631520e-01, 9.277481156765078341e-01, 6.599292375577974212e-01, 9.776130134530097715e-01, 9.680769280648174879e-01, 5.642375533203312088e-01, 1.758352959994375075e-01, 2.746501664199748616e-01, 7.241410439002871069e-01, 7.560631227445860914e-01, 8.305853104471309922e-02, 6.467233454959407934e-01, 4.997763097953086264e-01, 5.782775054934380377e-01, 8.218391519812578982e-01, 8.036965444181656260e-01, 7.540431887231994201e-01, 6.084676187008952047e-02, 1.717156708474602556e-01, 1.642737246886543934e-01, 1.325538078463699698e-01, 6.515589843585903873e-01, 4.700708003368667676e-01, 9.300694544465172298e-01, 1.574227386730538691e-01, 8.974466353794005591e-02, 1.151829377278370259e-01, 5.816183819128541987e-01, 5.051504677445108893e-01, 7.864901431601983850e-01, 6.435393488459779758e-04, 8.956279812664286188e-01, 1.504422079200066001e-02, 9.360624556671887087e-01, 1.327759017729372992e-01, 7.963108224578026029e-01, 8.424906740845283792e-01, 9.589216840428482769e-01, 4.760358601830544933e-01, 3.674660368011026246e-01, 2.330673757112119993e-01, 4.339647354226073284e-01, 9.988764059642769588e-01, 5.266494396241067077e-01, 7.761368322970108036e-01, 6.610827316789618102e-01, 9.591936369311256927e-01, 5.002388872812921772e-01, 4.218847190807474279e-01, 7.432860583880611660e-01, 8.799318413000714045e-01, 7.398825959395353147e-01, 7.485275778186325502e-01, 6.778489401878838860e-01, 7.733755681293611461e-01, 7.830955448117901119e-01, 8.946886022327895649e-01, 6.016144204784536209e-02, 9.313875665916212521e-01, 6.595987883384317740e-01, 7.195436433065229842e-01, 8.164693691070327164e-01, 8.561129748908227199e-01, 9.048676272919556340e-02, 3.299785589757688875e-01, 3.255721111304253346e-01, 3.427357580810795334e-01, 7.507492073271230248e-01, 8.674476212739316017e-01, 2.066282293298183914e-01, 7.747625267556296214e-01, 8.984726465115708827e-01, 6.417752926759887622e-01, 8.352956719234100325e-01, 2.763769577345539519e-01, 1.546028081484698558e-01, 9.918775868054263700e-02, 5.157799491296886224e-02, 6.508043908453753357e-01, 6.875763885850624813e-02, 2.883216112314801460e-02, 6.901753018718620458e-01, 1.081426267419108821e-02, 4.729470550731516565e-01, 8.876844343920521352e-01, 6.465704251939429215e-01, 1.111857470802547071e-01, 9.040736947908563081e-01, 9.018126827100463316e-01, 6.157585719051320572e-01, 3.326664413336648252e-02, 8.579862556451312017e-01, 9.361020664814758696e-01, 6.783777496543752505e-01, 8.671399557782523138e-01, 3.082554205213667853e-01, 9.859367934455036675e-01, 3.114000000753422426e-01, 6.749475279140808581e-01, 4.330555249488840519e-02, 8.271752889864054659e-01, 6.186600932371362216e-01, 9.965102480571244037e-01, 2.766444643390630342e-01, 8.147666046957576791e-01, 1.341573923418327985e-01, 2.523819695425710830e-02, 9.487844918548629103e-01, 7.048878772981719276e-01, 5.238048625929099256e-01, 2.552540877765321209e-02, 6.782851992653714523e-01, 1.949188611711744068e-01, 4.533676549437535841e-01, 1.860024130375052820e-02, 4.689790782127906121e-01, 4.437839661689148979e-02, 4.412422231985800858e-01, 5.203019692099523086e-01, 4.870698965476795150e-01, 8.972245839490451402e-01, 9.289833819050943853e-02, 4.278058111854917689e-01, 3.082811088181752202e-01, 8.470838126356154962e-01, 9.027870247402128845e-01, 7.015804768566642480e-01, 3.371603371358447010e-01, 7.148707847798527748e-01, 7.531344176629578557e-01, 6.527366843419141196e-01, 7.649400465105874458e-01, 3.094406925037067047e-01, 8.823627757551414513e-03, 7.076185653369898576e-01, 1.140841359175243097e-01, 7.920100428932597136e-01, 9.365061130290833757e-01, 6.573710171825526416e-01, 1.688794444102768022e-01, 1.607330761430486310e-01, 5.174812271733966185e-01, 2.612391659785847850e-02, 5.201618982958093884e-01, 7.629998980274941278e-01, 2.307322206395719111e-01, 8.976660194105264834e-01, 6.771683015860234800e-01, 1.163604908127644222e-01, 8.051878345931871017e-01, 8.041384553197415963e-01, 5.592504224293260995e-01, 2.297808400972748410e-01, 2.922948451554358562e-01, 6.064854833673009038e-01, 1.508128939042480687e-01, 7.404238003443931460e-01, 4.069698787948428653e-01, 6.585511147037542701e-01, 8.994107912508594316e-01, 9.070506815540274603e-02, 6.968022097564980921e-01, 6.199896525823277438e-01, 4.373367690959435450e-01, 6.010826408103958629e-01, 4.218464626825276786e-01, 9.471953583276002675e-01, 8.388581614297455080e-02, 7.708845659802663342e-01, 2.105320446063838336e-01, 4.148440294314697518e-01, 3.319206760077201834e-01, 1.086372437525275347e-01, 9.088802247834795733e-02, 2.126270431758566504e-01, 9.730010627263300238e-01, 1.743291754178308006e-01, 2.350714315220368000e-01, 3.214950955638571917e-01, 2.905591153760261891e-02, 2.307660815984000427e-03, 9.765453731716831065e-01, 6.132467196707267476e-01, 1.870150134219211169e-01, 2.953888967001913612e-01, 9.663802435279097436e-01, 8.799362079418858729e-01, 6.513316306440710690e-01, 3.590310239788772062e-01, 3.560127672783209851e-01, 8.424226572992674633e-01, 3.843528953832566764e-01, 2.992848085003718128e-01, 4.604394538453435715e-01, 5.923577818638126047e-01, 3.200148411517586555e-02, 5.760915672841496749e-01, 2.937349731474155345e-01, 6.226102920212714942e-01, 6.695769665534119230e-01, 6.524442326225401989e-02, 2.122875609831806620e-01, 1.702636452974012060e-01, 3.855160352786879963e-01, 6.680334510026415540e-01, 7.824404961365096778e-01, 8.505863444883398072e-01, 9.272071024762159608e-01, 6.812085645972405512e-01, 9.631508559645532985e-01, 7.123744520101797928e-01, 4.632356979875580372e-01, 5.219361467518216502e-01, 8.652352810322483379e-01, 5.032244378679549129e-02, 5.039949084104319299e-01, 9.685047324818167880e-01, 9.433552232322555131e-01, 2.593791952812126711e-01, 9.435944803461413510e-01, 7.461615825163665783e-02, 8.694700025415998956e-01, 8.379787689971056608e-01, 5.219050227679093990e-01, 5.191309824974134068e-01, 4.799685916815683850e-02, 7.491990590504319369e-01, 9.907732135751662339e-02, 2.980073563629272518e-02, 5.449398531013832647e-01, 3.583852733814267277e-01, 6.181995607240321489e-01, 2.489545105407844072e-01, 3.070829680250884430e-01, 6.055957943383071251e-01, 5.426243026472327147e-01, 1.030781965199169120e-01, 1.720406426630910479e-01, 4.681600041661578282e-01, 5.863421594576200269e-01, 5.358844093456168745e-01, 4.463256170625877761e-01, 9.706378313066053032e-01, 1.987849389123559907e-01, 9.855834656074713429e-01, 2.802983421722457513e-01, 2.985952962315324699e-01, 3.717172554441182664e-01, 5.346377205676849931e-01, 9.084691950133295668e-01, 3.160889109652421092e-01, 7.943183054020584999e-01, 4.582835875508479984e-02, 6.815642546075225683e-01, 7.856650936506016647e-01, 6.074933593406149912e-01, 8.394777525247751893e-01, 8.218656402044293152e-01, 6.093435298343758966e-01, 4.406748335724270937e-01, 1.619194799013221331e-01, 3.332268521356074875e-01, 7.932298946614110280e-01, 4.263632108421622768e-01, 7.905900141242925283e-01, 3.527536294025493142e-03, 6.636954652794895271e-01, 1.437731132900213205e-01, 3.929532737338087278e-01, 2.454042014876720301e-01, 6.126834548671132863e-01, 2.142064688370980130e-01, 6.098125066690310847e-01, 8.834824752509300438e-01, 2.663502090045398799e-02, 1.467488962821927589e-01, 5.626833690640331564e-01, 8.608737605321623576e-01, 4.737281508093270088e-01, 5.295536420611536288e-01, 1.612223295699576342e-01, 5.511912783348821288e-01, 3.948346998523368651e-02, 3.301174765460106464e-01, 8.676823947107535906e-01, 2.862854624454490571e-01, 3.387447203757206204e-01, 4.741680293804227397e-01, 8.596795300093382775e-01, 6.591604909728997486e-01, 6.555877454622320855e-01, 5.219962031550611226e-01, 2.531381653832653345e-01, 1.215729933816480091e-01, 7.800080175734571686e-01, 3.693771480386209283e-01, 4.851524658604955964e-01, 1.776606042649844786e-01, 5.394397850728727128e-01, 4.007280995561181558e-01, 7.890931749722269739e-01, 1.776182022537285965e-01, 8.890155343867041093e-01, 7.214588611308517807e-01, 1.989706741341538410e-01, 5.912080236252350574e-01, 7.388663922666105499e-01, 5.009547765277561071e-01, 1.593516856345582322e-01, 3.833037273219083718e-01, 8.689898441117702155e-02, 6.748121846269599100e-01, 4.064633028721885699e-01, 5.807555462353447551e-01, 3.890794508146328545e-01, 3.834980821017368591e-01, 2.425285309443652448e-01, 4.465843765075424021e-01, 2.418662777907266692e-01, 6.110303188638828154e-01, 1.615453194349489585e-01, 9.475982138978277236e-01, 1.830865409216859974e-01, 5.092188409561203555e-01, 4.886567450560723724e-01, 5.583799099499880958e-01, 5.998003314272626341e-01, 4.060227556288308892e-01, 1.803912975186080792e-01, 4.777895174389331645e-01, 5.194106674315177585e-01, 4.061133681962884601e-01, 4.782824716062611392e-01, 2.666044572544813002e-02, 8.226369377588694798e-01, 2.740365785186546499e-01, 9.754842023209370216e-02, 4.298941437076934102e-01, 3.943893201316251984e-01, 6.522621524974926699e-02, 6.362231407191434318e-01, 6.005112583891337730e-01, 9.568871587963789782e-01, 4.859405074008950609e-01, 6.633464758075462431e-01, 6.240573695401113730e-01, 3.931604770713884589e-01, 7.259388994290200126e-01, 4.775089263950361707e-01, 5.544685746839027596e-01, 2.482543972601602145e-01, 6.375250269555023941e-01, 8.683548429064584795e-01, 9.124900054600554311e-01, 9.791956092786151533e-01, 2.398996229668822269e-02, 3.544711692779803358e-01, 7.004274069020089977e-01, 8.744584120374795377e-01, 4.386235474352316588e-02, 6.460249196809139116e-01, 2.584507802890205763e-01, 6.430384261838854032e-01, 8.305757330812811867e-01, 5.917928581869009302e-02, 4.250975369024873607e-01, 4.079165228068009075e-01, 3.754289915869847283e-01, 9.568820665822840299e-01, 4.942136453710434252e-02, 8.347805002897012994e-01, 5.783096176077553441e-01, 3.354032001863294088e-01, 4.427947944404957981e-01, 9.850281589417896333e-01, 5.435987172200356099e-01, 2.938905132931262099e-01, 5.698266242862987802e-02, 7.859603321267102372e-01, 1.271787885980102950e-01, 7.568182788974037178e-01, 4.578669310368468359e-01, 5.525432444463456161e-01, 3.920287875096082342e-01, 9.500641768967263978e-01, 5.287182288232671334e-01, 8.760852402592756993e-01, 4.214818601440538104e-01, 6.963833687455196486e-01, 4.947127387759738260e-01, 7.617902661089727134e-01, 8.920279363914137560e-01, 3.566109930801331096e-01, 5.066198791041149480e-02, 3.804462568450990845e-01, 8.931938903228682225e-01, 9.322146335781541504e-01, 1.594503908736301934e-01, 5.319138374368041072e-02, 2.929420820293344718e-01, 8.623305503718330378e-01, 3.963720054114798774e-01, 2.843343989664319227e-01, 2.183813510024018301e-01, 3.131097562140755519e-01, 2.049740247020773176e-01, 8.191970677411454238e-01, 1.358527326527002588e-01, 7.461016861384808241e-01, 9.515838699826631997e-01, 6.830576592135561009e-01, 9.311952114147934445e-01, 6.854809543810616024e-01, 2.924450510153717153e-01, 3.872118673848046755e-01, 6.672361437951599417e-01, 4.419347113257506704e-02, 1.276004640293023629e-01, 8.211276449341041728e-01, 5.596638814176937426e-01, 9.437905471002921987e-01, 4.424894420994036626e-01, 1.395864203684001603e-01, 5.905863314049558666e-01, 1.531083622043441679e-02, 8.617395544567802990e-01, 9.171414324668695217e-01, 5.347527455290185250e-01, 4.718591499484309781e-01, 1.528201872207956002e-01, 3.656162797741968618e-01, 7.185238196027270430e-01, 2.235706699170194600e-01, 8.098565999509702573e-01, 4.675256635070041411e-01, 2.782405844101739634e-01, 2.841873993971046342e-01, 7.377933363087975094e-01, 5.947127195270528466e-01, 2.940893963138926370e-01, 2.372759521556851714e-01, 1.731624905464397290e-01, 2.739409186779928063e-01, 8.113615848604022185e-01, 4.033598515083934299e-01, 9.043801381396793237e-02, 3.565975937181110056e-01, 9.108920808365285060e-01, 6.436474087897698926e-01, 8.694965044783825592e-01, 9.994613448939478895e-01, 8.926237556814672347e-01, 1.526899925256189616e-01, 8.070731987512164141e-01, 9.885234000630661599e-01, 6.809536103158018161e-01, 7.824893096035534512e-01, 4.354119599020940812e-01, 6.586001299636462525e-01, 3.246240988964703145e-01, 8.236539211506493929e-01, 1.703930717340100820e-01, 2.330886387306091712e-01, 2.254912638220043786e-01, 3.348932702799166106e-01, 7.089504145619225373e-01, 4.992553674759190874e-01, 9.581937345754680813e-01, 8.963084485721654060e-01, 4.755150745524355238e-01, 7.003440619166301229e-02, 5.485770106686802539e-01, 9.431991580291171351e-01, 6.994649836841312363e-01, 2.174195529267166638e-01, 7.696527429177785207e-01, 5.619687966654032252e-01, 1.477944657674133411e-01, 2.100786553234988696e-01, 7.720142033924064506e-01, 5.986954956530638611e-02, 2.554890627376723011e-01, 6.163699312672568098e-01, 7.777067552237457715e-01, 9.292625050708104295e-01, 6.225146080347999655e-01, 8.536771033574491740e-01, 5.909153169986246512e-01, 6.290053011851352016e-01, 6.628929143005616309e-01, 4.558231292183123062e-01, 7.355325906187741847e-01, 7.545765281761631638e-01, 8.414334833927595847e-01, 5.045191172484704278e-01, 4.246329878751967657e-01, 4.659620818420618510e-02, 6.938883634165309289e-01, 5.175397205067356898e-01, 8.536367684667512945e-01, 5.064587861507413580e-01, 5.540877884689909827e-01, 5.070292416742824271e-01, 7.969423335952351417e-01, 6.375555359530257205e-01, 4.899298751346055081e-01, 7.668375746577444918e-01, 1.018835262577602041e-01, 2.997442776154993216e-01, 9.632434852387818935e-01, 6.785172691701188974e-01, 2.320032685321742338e-01, 6.308586282191336325e-01, 7.743737981500539158e-01, 9.930362551655350645e-01, 9.568885265258956219e-01, 7.730681923095877872e-01, 2.539833598892032307e-01, 8.710334800697618063e-02, 3.213358933006465468e-01, 8.889719017583671556e-01, 7.161392574180939219e-01, 4.289927465450702471e-01, 3.749727818309577798e-01, 4.223437087238298693e-01, 1.511599668187671719e-01, 3.066519645762627588e-01, 8.400346410844397038e-01, 3.501686571041327019e-03, 5.514532780230815279e-01, 6.925942276182073254e-01, 5.132975963006434217e-01, 5.009598203216462931e-02, 3.069813001127648655e-01, 2.069258474284485227e-01, 2.906453653416144478e-01, 4.181474997507447222e-01, 5.034018669876115792e-01, 3.142797682701218426e-02, 3.602363888669080777e-02, 9.886717449149149406e-01, 6.254230011127789313e-01, 9.230946915989057810e-01, 8.287565655236138751e-01, 7.946139739845049510e-01, 7.209780483662152628e-01, 1.051534284851799450e-01, 5.729235306821318929e-02, 4.057610285108655401e-01, 7.747257596126516654e-01, 9.903462804924971774e-01, 2.646142926440753218e-01, 9.253123409432135738e-01, 8.210900257087412335e-01, 3.727017905405466958e-01, 7.516036233090962471e-01, 2.160962869346573223e-01, 7.192839881619313980e-01, 5.399904631841245112e-02, 4.224564076825889081e-01, 4.557610608228768734e-01, 6.779841040009397801e-01, 3.415808363011367532e-02, 2.965083436999966238e-01, 9.654531875925022669e-03, 6.761357069829683208e-01, 7.070912020384850782e-01, 7.322000326843801643e-01, 2.169539940675950518e-01, 5.947548691177048097e-01, 3.875505069908778411e-01, 8.695987751643118047e-03, 3.753622269903560960e-01, 8.812901077073708178e-01, 4.234973072639006131e-01, 4.203526457163513363e-01, 4.724303120067847028e-01, 6.240734293479720945e-02, 8.714922902007866956e-02, 9.295141648651450428e-01, 2.121374493522996257e-02, 5.509966843686366911e-01, 1.530179840222456733e-01, 9.470443113673757685e-01, 4.723355430977136948e-01, 8.756725387697473773e-01, 4.025225268073319707e-01, 6.539065590853450072e-01, 5.546503108057880826e-01, 1.392125870003142057e-02, 5.409404144569026629e-01, 7.513864735391541094e-01, 8.403921569400296665e-01, 5.755041447798130427e-01, 7.742932873788526127e-01, 5.590523610693571843e-01, 5.107642824724609731e-01, 2.479121593204924590e-01, 4.205569645587038941e-01, 9.540309563037224772e-01, 1.330311604403644765e-01, 3.325764045027148619e-01, 3.145350597401285007e-03, 8.030806470158988741e-01, 9.343424178237189626e-01, 1.151355253555867708e-01, 3.968673979991896306e-01, 8.250101747366714311e-02, 6.682746015058304012e-01, 1.077437392713447295e-01, 8.633121132062030467e-01, 5.935396407677431263e-01, 9.471576760935918049e-01, 5.529893843516742180e-01, 3.937309080004118278e-01, 6.227983575097802982e-01, 1.739718726245955138e-01, 3.495734697732275076e-01, 1.577066575011300542e-01, 7.481078289710120233e-01, 1.761335429198662428e-01, 9.838468304982783685e-01, 8.576099554996335916e-02, 2.025737791404747246e-01, 1.540876821482108361e-01, 4.059581165961439475e-01, 1.226146540827881548e-01, 5.738018048209387878e-01, 9.589195280702857982e-01, 3.142070181593719647e-01, 9.631922759314620608e-01, 6.053968615079987486e-02, 8.215883091456270826e-01, 7.050370076180635381e-01, 8.008478665698610666e-01, 9.562917187148473053e-01, 3.695654199334338363e-01, 4.814825846669583687e-01, 9.738816013402104010e-01, 3.521579090164417281e-01, 8.211741162002937910e-01, 7.566351556059013328e-01, 9.147166928959228338e-01, 3.808358924526313860e-01, 9.036393650130323044e-03, 9.204722071608575362e-01, 9.058014429063270256e-01, 6.244830750335763625e-01, 3.550190878922385163e-01, 6.917607058139513265e-01, 4.632751390700295957e-01, 7.768387679809229951e-01, 5.059429654775426943e-01, 5.040037894904947358e-01, 7.215907949218671735e-01, 8.733581237506283790e-01, 9.202326622590691896e-01, 2.933941079641806393e-01, 6.706847299971724352e-01, 1.940704959122642459e-01, 6.649362062949148999e-01, 9.359440199967168361e-01, 1.966054131342063471e-01, 4.055106324336357759e-01, 8.723663962407008921e-01, 7.864693370348689871e-01, 7.065291394989433593e-01, 2.665909420414172004e-01, 4.043899238366104876e-01, 5.925778762459873450e-01, 5.936718575339428039e-01, 1.553248025026978119e-01, 2.718057912618100994e-02, 3.212796777197411968e-01, 6.167472922986639849e-01, 3.190417063411541965e-01, 1.857286299208797953e-01, 4.218830849403339966e-01, 5.068350523465905422e-01, 2.299818758990699874e-01, 1.853918805241237810e-01, 5.026345578935366154e-01, 2.436429809226920429e-01, 8.304239272889286649e-01, 1.213313324944251433e-02, 6.171031339238393087e-01, 3.914431666053956593e-02, 8.916962207417982178e-01, 2.100454289553613588e-02, 3.940588973323823629e-01, 8.517042068365329732e-02, 2.718363555956618827e-01, 4.010507905604558943e-01, 4.762236100616234341e-02, 8.103444644545040321e-01, 9.518450319223348277e-01, 7.320502953449931072e-01, 7.352824500630009696e-01, 8.358272307320372407e-01, 4.119364353242462862e-01, 1.735131552493346385e-01, 3.576647639152054081e-01, 8.658573109505793841e-01, 5.563926052439188696e-01, 7.363281248091075870e-01, 6.932495656195900580e-01, 5.776973438071114630e-01, 6.517502897915755655e-01, 2.329185138246849807e-01, 7.286264910955660978e-01, 1.154517406774784871e-01, 8.871718508854216090e-01, 9.500929038980493457e-01, 3.765658054846592051e-02, 5.063779054696385673e-01, 7.195147423899842520e-01, 9.173838409031176422e-01, 7.779836687997023770e-01, 1.880865458870336904e-01, 2.746940255009586163e-02, 1.760335784810097837e-02, 3.209055102026520667e-01, 1.791614327020875919e-01, 2.633594336741963970e-01, 5.261854253163692485e-01, 2.458052990456094655e-01, 5.694994001306409315e-01, 9.731848090465289314e-01, 2.391973112482342900e-02, 4.622235778506860737e-01, 7.622793540555279357e-01, 1.734485050651539129e-01, 8.401092631520906684e-01, 8.978572259272018519e-01, 2.282352997368396474e-01, 6.593619036578919623e-02, 5.492963057929015624e-01, 8.272309656065311989e-01, 3.743852728288132869e-01, 5.357793028601404162e-01, 4.026924449257165972e-01, 7.017445021363638569e-01, 8.830092996612944889e-01, 5.409882911521167737e-01, 4.555800733262554969e-01, 9.029890489044749557e-01, 8.437508997423419643e-01, 9.317812340465084775e-01, 6.694378755915225687e-01, 1.355638187982335374e-01, 1.524567194953472260e-01, 9.846408239758052128e-01, 3.413641244662718455e-01, 8.333559278184216046e-01, 8.025408447862817374e-01, 3.340737046389925524e-01, 9.687482935910465276e-01, 8.803226324179462825e-01, 3.164276552782665508e-01, 8.884254277881581396e-01, 7.127404430545495329e-01, 3.711657626900089491e-01, 6.095767235612470358e-01, 7.484601525703726832e-01, 1.831714608037718905e-01, 2.265629111992179812e-01, 2.739575036430183519e-01, 6.547974581442221609e-02, 3.622165896185338130e-01, 7.505411459532046470e-01, 7.622528324748985007e-01, 6.332568251930451586e-01, 7.029265084361979721e-01, 5.739260589022154857e-01, 1.585362475753507860e-01, 2.771677803273376803e-02, 3.483739969285112315e-01, 8.325425300578512822e-01, 1.702179810030738372e-01, 8.970720074766049823e-01, 2.601867212836136978e-01, 8.304746695757302399e-01, 6.701030767569403634e-01, 9.873403359253865585e-02, 7.905069139223368513e-01, 3.168565977755578578e-01, 6.322915901081640477e-01, 1.126707956486534962e-01, 8.380789222954573292e-01, 4.737789896936205891e-01, 7.860996003675163601e-01, 8.105221693504729430e-01, 2.719696765292420326e-01, 9.056297617490173257e-01, 8.117369418371235268e-01, 4.006922636160208939e-01, 4.070912035630630532e-01, 7.588161924484873033e-01, 1.570138512323586977e-01, 5.024960199300616548e-01, 8.637227326540024563e-01, 6.068282820554039558e-01, 8.692843567281114403e-01, 3.917075782469826017e-01, 2.765648843499551868e-01, 2.638711163762725298e-01, 3.149792832735884840e-01, 6.601100925608101022e-01, 5.246140670730068539e-02, 2.752906627015877516e-01, 4.595537743863734592e-01, 4.636136318639436787e-02, 9.085313645157561124e-01, 1.320906964883654666e-01, 1.102388366577537887e-01, 9.484954681628788853e-01, 8.452856254080167719e-01, 5.442886276857170635e-01, 9.341233544302480762e-01, 6.901995407162495044e-02, 6.402202483414387579e-01, 5.720017068148861572e-01, 7.115105889143261697e-01, 5.112860103714810256e-01, 8.614489579966218002e-01, 8.596252319108712570e-01, 9.365905013340730667e-01, 5.017328809032605141e-01, 6.674368067097179447e-01, 8.752306791598988278e-01, 7.871228711833367919e-01, 5.703918259281335335e-01, 9.566615768390541730e-01, 1.125947223233915613e-02, 8.897077555728397646e-01, 5.938590967264854026e-01, 9.709479310404633967e-01, 7.518131318470184787e-01, 8.518190155107960848e-01, 6.850016667923852776e-01, 1.112588791355837575e-01, 1.060242429575476708e-01, 2.718322729233610957e-01, 6.207820885197153915e-01, 2.176715092376445282e-01, 5.394166841937714230e-01, 2.279596842353857900e-01, 1.776642387276036739e-01, 1.339765967558451676e-01, 2.464336827518961437e-01, 8.343057575301772166e-01, 7.409303578347249397e-01, 4.797072160823691034e-01, 6.613839523647353502e-01, 2.120810141259154569e-01, 8.582698091639590077e-02, 2.865922654612383380e-01, 2.886637998732472510e-01, 2.633804742062785254e-01, 2.243000905600434913e-01, 3.344856785299618052e-01, 2.942585643029210218e-01, 5.987645110023329664e-01, 1.189094661216823362e-01, 6.895842682431809756e-01, 6.642098729287878589e-01, 7.593972050827081377e-01, 1.277426053012895857e-01, 6.096385998107071991e-02, 4.232832193974361140e-02, 2.364671409575176131e-01, 9.410607571483046163e-01, 2.088728756748951532e-01, 9.474688346799812200e-01, 5.726872435991685606e-01, 5.664216959267132090e-01, 6.062168060285223481e-01, 3.753160992136773955e-02, 6.819544640170828176e-01, 6.763180519320451944e-01, 9.907320209255856547e-01, 7.748403640322387709e-02, 9.257063317210864062e-01, 3.212315455525509011e-01, 5.603991459931463304e-01, 4.655434833559704555e-01, 5.419392315712754371e-01, 2.838318226646122655e-01, 7.541720175942270288e-01, 9.374552876225027420e-01, 4.563527171793175796e-01, 4.803158911791152730e-01, 7.324311185774786681e-01, 8.032218187473273430e-01, 8.007716720055066961e-01, 9.378610990094250477e-01, 3.905827284015935819e-01, 6.816793207203071248e-01, 1.540009924132343944e-01, 6.975571675616235590e-01, 6.538212709206208118e-01, 2.531078400271703499e-01, 5.715106615394963674e-01, 4.534190945109351500e-01, 4.417396032426688240e-02, 8.300496571373596755e-01, 1.076870004355227894e-01, 6.184770363636042934e-01, 9.341073265592468866e-01, 8.132499329487244966e-01, 9.588099885273601020e-01, 4.268295998580837747e-01, 4.022897361621683571e-02, 9.381918153117481396e-02, 9.426249333237165517e-01, 8.403712309193012153e-01, 6.185128147967157153e-01, 4.582526349382938236e-01, 1.109197885746194753e-02, 4.563901073747565484e-01, 2.050179717772108168e-01, 8.022547427486207416e-01, 1.796292861543793418e-01, 9.102876411518766309e-02, 3.158164183891914445e-01, 9.386969566827734202e-01, 7.381866146118351013e-01, 5.377576634645394593e-01, 8.159532225012140483e-01, 6.228567488848166800e-01, 4.412106529155579437e-01, 5.927347070696974418e-01, 4.444073122833368528e-01, 5.594199969864238620e-01, 9.264135171839043004e-01, 2.798679080328703717e-01, 9.915906030264866056e-01, 4.446172147037752986e-01, 9.107417439098600687e-01, 4.577313108618330517e-02, 8.219388302695312953e-01, 3.428913272786361377e-01, 7.536789453632281033e-01, 4.884063229458874833e-01, 6.363845591370442811e-01, 6.675792989001279321e-02, 3.605913657012154716e-01, 4.472396154837049442e-01, 1.337180837567537028e-01, 8.841839411968873685e-01, 2.784833095136731718e-01, 2.164586258628240500e-01, 8.500207268408656036e-01, 4.831817388540463054e-01, 9.926058449882714241e-01, 5.943363550756008973e-02, 9.388147740503774985e-01, 1.515566390590746826e-01, 7.953249889144369256e-01, 9.439044592383193377e-01, 6.664419341801471885e-01, 5.351474738875136028e-01, 9.896360783651160231e-01, 1.567510897319199792e-01, 9.760516820291361695e-01, 3.390208149656561143e-01, 3.146965556383019003e-02, 4.197581374716461422e-01, 2.868914953170689786e-01, 8.826538677201770655e-01, 5.748457560289523816e-01, 6.259430349935281024e-01, 2.697701049141025265e-01, 7.160641275684883622e-01, 4.235175926903566590e-01, 8.604869523239153106e-02, 7.615934433885402921e-01, 7.550777289604734266e-01, 3.855096781719364318e-01, 1.682449588894602832e-01, 8.402529183997977658e-01, 1.473010341689990066e-01, 6.241701282505403015e-01, 9.127886466187584702e-02, 2.349611273448318771e-01, 6.792537314472854026e-01, 2.294798734398677265e-02, 9.837266054655740000e-01, 1.115866317744161895e-01, 1.389318412991079887e-01, 6.570034013887621205e-01, 4.568687708609885378e-01, 9.428843472301851047e-01, 2.033747912758467613e-01, 3.081038571071099685e-01, 3.954283420627220380e-01, 6.824595398042453409e-01, 7.430237970761388588e-01, 4.631038662699586972e-01, 7.588002008632256379e-01, 3.424649460242054078e-01, 3.598139576611381063e-02, 4.025569348375821477e-01, 7.497322250877432870e-01, 2.811394848942746494e-01, 5.131793256940142545e-01, 7.864470968390138150e-01, 5.133854949986427219e-02, 1.183313883821377754e-01, 7.923289536267661415e-01, 4.597833171653822881e-01, 3.095153242337294053e-01, 6.354410536336259352e-02, 3.064766192185928162e-01, 6.098888647982002587e-01, 3.065495613053569879e-01, 2.830427114426324331e-01, 6.726255685801677542e-01, 7.132666275317388616e-01, 2.032734045489565933e-01, 9.685754100655472598e-01, 9.525684243016158126e-01, 8.054680112947967263e-01, 9.699464889029585368e-02, 8.570420413917659852e-01, 8.219728724082802085e-01, 2.801147031932816889e-01, 7.597536396453924423e-01, 2.003613190415066136e-01, 6.210672649175308369e-01, 8.456013814719607335e-01, 9.994117101304144102e-01, 8.475685309745472074e-01, 9.763231618227945219e-02, 6.776465958367126063e-01, 5.294053530127739160e-01, 7.879548425953919466e-01, 2.008456040195715220e-01, 8.195509364533308805e-01, 8.634597702242968742e-01, 4.226413310482535768e-01, 8.765442975205079978e-01, 9.078354848386985809e-01, 3.818057795922440434e-01, 3.557087860140201174e-01, 1.434099981707677163e-01, 9.855467374098653144e-02, 4.271973671185437804e-01, 5.165730057152172483e-01, 8.641462493528129230e-01, 3.044802393584045141e-01, 3.323208197335393299e-01, 7.516119990169321460e-03, 1.479272292917691023e-01, 5.446148578646115013e-02, 9.184426385675712456e-01, 2.498129075615374006e-02, 2.388892318416067084e-01, 2.151938726945268887e-01, 6.185841737059493139e-01, 7.608542581684956119e-01, 1.197566119522020661e-01, 9.336958488862945327e-01, 2.431665248057936213e-01, 6.541981715838736111e-01, 2.291529878097561257e-01, 5.384261091306183911e-01, 9.332708435509475819e-01, 4.161643737270563914e-01, 1.673986190416100472e-02, 9.125285297447113253e-01, 6.606508717757539895e-01, 1.442782825796863448e-02, 7.831501909784177595e-01, 6.073764122850894981e-02, 2.451806367533654329e-01, 6.114374982956499727e-01, 5.335275639890177946e-01, 7.934312625582523593e-01, 9.000982407274562558e-01, 1.728504782820976249e-01, 5.912993408040908561e-01, 7.470704388971959320e-01, 3.295069835066900543e-01, 6.594570782435241751e-01, 9.736883954227824045e-01, 5.937660883581706850e-01, 8.802603299278015658e-01, 2.667497026498701351e-01, 6.305582616060327605e-02, 1.024224559915802718e-01, 5.040838026380545234e-01, 9.188156216052364433e-01, 2.076565068833583771e-01, 4.514591771571219159e-01, 2.886469670178686830e-01, 4.798335617581887536e-01, 7.845710742445269892e-01, 2.434407984781713497e-01, 2.842078896852465175e-02, 7.277104232111277771e-01, 5.057665090756920945e-01, 2.817292427255049247e-01, 3.335382351785350363e-01, 3.519231497998790426e-01, 3.234632323990759006e-02, 1.663739505850937717e-02, 3.739543236895583322e-01, 8.640860530319601773e-01, 1.088850130672371769e-02, 6.666093541651838539e-01, 5.528543798994897717e-04, 4.144699095550811174e-01, 8.316356811299984164e-01, 8.103929108758584077e-01, 6.241849244527375440e-01, 6.195813838592648670e-01, 6.798439981936843512e-01, 6.487190017880858361e-01, 8.454465402369413241e-01, 3.635177352331057099e-01, 8.415843282826773741e-02, 9.814782868279285921e-01, 1.205921932010169673e-01, 6.805807569481994168e-01, 3.723254769829386635e-01, 5.259952080382436224e-01, 6.830469418823614802e-01, 2.405593962856487078e-01, 7.872171047375956521e-01, 3.432845016292875862e-01, 2.030490396096541750e-01, 2.751068538322796186e-01, 9.578002987977399241e-02, 2.609792325732706586e-01, 4.651391162913476873e-01, 9.496669289972253791e-01, 4.112880811826720717e-01, 6.530279844339925699e-02, 1.659887764062216997e-01, 9.151085261140824434e-01, 5.418396023619918012e-01, 7.488516280213899368e-01, 6.484814314194307094e-01, 3.912380346243414797e-01, 7.029921314725834369e-01, 9.821024093219561657e-03, 2.116464900465300225e-01, 6.115807521167913041e-01, 5.432397453924922015e-01, 4.867678511848249484e-02, 2.329013235429918949e-01, 9.721108827675178921e-01, 6.875216859058732588e-01, 9.830922917089743307e-02, 2.955233979109475606e-01, 6.013488188730925499e-01, 3.346871450074272447e-01, 4.023094775225971031e-01, 4.486002379759971292e-01, 4.768961825881375405e-01, 7.855482744847345211e-01, 9.376739462766362498e-01, 5.571412454060366004e-01, 4.343116057720611267e-01, 6.975354110142938380e-01, 3.504805478528635887e-01, 5.843580530531571338e-01, 6.479717865562588663e-01, 3.885451017975628529e-01, 3.419230319339225388e-01, 1.236410680614164204e-01, 7.746001947055122239e-01, 4.871622136271008818e-01, 2.514422314833787420e-01, 1.612702656156146663e-01, 6.743605981790469217e-01, 8.994358512606885903e-01, 6.943293705139411687e-01, 4.514378433321156736e-01, 9.611647465158830450e-02, 6.427301701418616231e-01, 1.307730819661614419e-01, 8.198483282703569186e-01, 9.770707041970327911e-01, 5.725859826004950914e-01, 1.742669781588490341e-01, 8.677308820780904597e-02, 8.383313377689746160e-01, 3.660495814653138558e-01, 9.711517644379442649e-01, 2.448678904850108140e-01, 6.609676256605353517e-01, 4.050811868355706502e-01, 8.953557640013690699e-01, 4.564022409537020208e-01, 1.935972450768406738e-01, 5.794723832455812573e-01, 7.820572596201544879e-01, 3.990756776260342420e-01, 2.529099323659764198e-01, 1.111914570218514031e-01, 5.946149064727712652e-01, 1.285195170061256276e-01, 5.268282342970649346e-01, 5.628191795394809072e-01, 6.511278655472356736e-01, 9.020922649228877432e-01, 7.853647241347904151e-01, 1.506290100572495738e-01, 8.027373422938820502e-01, 7.567862116108368120e-01, 3.550715041133757355e-01, 5.519275133526604371e-01, 4.875184003596927385e-01, 5.024858407561997309e-01, 8.173127017874650679e-01, 8.396692018185547557e-01, 6.925475800467109644e-02, 9.565130201330064308e-01, 7.339556866234009380e-01, 9.949328309222509326e-01, 6.389831628391517970e-01, 2.846303155098324766e-01, 4.885939215240013289e-01, 6.828163498832106049e-01, 1.835520742458049692e-01, 5.043110756112815229e-01, 9.645713843452277669e-02, 1.198083562176871647e-01, 1.457471465569187274e-01, 7.487996741372135445e-02, 7.810960036589405589e-04, 5.164047231692216189e-02, 1.642988066594365526e-01, 7.245910030740583541e-02, 6.877388686789495109e-01, 9.901345876411026259e-01, 2.638805107805363703e-01, 7.628604728491813480e-01, 9.267429526899964021e-01, 5.733288653038665084e-02, 9.971373540496770715e-01, 3.892295560516276232e-01, 8.088629400322790985e-01, 1.008983111286501644e-01, 7.876937672597968954e-01, 5.095634712060990168e-01, 2.451924718239496259e-01, 8.065923594781853057e-01, 6.979371450614235695e-01, 1.927139475672824676e-02, 6.754573513167286825e-01, 2.856910158785570530e-01, 1.167582566930752824e-01, 9.004083381810554232e-02, 2.750265493193856936e-01, 3.592596520807084248e-01, 4.441145958951589479e-01, 2.736523282591623030e-01, 8.160304932199821115e-01, 7.126810584818582539e-01, 4.101475006031555792e-01, 7.599665605635519405e-01, 2.918289586830480897e-01, 5.736830583530775352e-01, 6.400071988868878403e-01, 2.748496991206278439e-01, 6.211840494377259825e-01, 4.714653593708999502e-01, 3.135955246505399696e-01, 9.860605804531433760e-01, 7.221756980229785405e-01, 4.603333772153481163e-02, 7.074360191991537761e-01, 3.647016921673084666e-01, 8.353293933341912059e-01, 7.107313615630299619e-01, 9.306611499640708995e-01, 7.358428924899153012e-01, 3.968322164396200780e-01, 1.797152926952793606e-01, 3.696951912439190302e-01, 2.223737069647552522e-01, 9.420049780719188526e-01, 6.178394073130275554e-01, 9.245670662748231017e-01, 2.938646821828126976e-01, 3.344942353462849183e-01, 6.849575296529348822e-01, 5.376302593194869361e-01, 9.642064782755496166e-01, 6.749038270444666088e-01, 7.678347131142547743e-01, 5.114919161939751602e-01, 4.605792723733476701e-01, 1.602100190598439999e-01, 5.887022683249664157e-01, 2.005014553983736070e-01, 8.681380266007687752e-01, 4.025171575262907475e-01, 1.371995301350331375e-01, 9.181547135879651877e-01, 3.855592417116384674e-01, 7.165047520585495766e-01, 5.504280757615810371e-01, 3.620427079040240415e-01, 2.965029737547543731e-01, 8.315590254833752359e-01, 8.858122533251191477e-01, 7.437060430209644357e-01, 9.652463025380438044e-02, 3.874404304945353594e-01, 5.139986579175076509e-01, 4.828914767120777718e-01, 4.261018420067069212e-01, 5.473910814945491810e-01, 1.237112530677468847e-01, 8.106768217590069048e-01, 7.963924539892807131e-01, 5.089214859106128142e-01, 2.561419912741932370e-01, 4.962985652902937583e-01, 6.205274189371497995e-01, 7.769770710023347071e-01, 2.009698494164256222e-01, 5.098344290420225855e-01, 2.660156841333659039e-01, 9.746470723985449780e-01, 6.936642591395814073e-01, 9.812400864999039074e-01, 2.758310616634522816e-01, 8.622784629571543791e-01, 2.302905601072952890e-01, 9.459460429770514267e-01, 1.181638552839734541e-01, 7.472829092466506951e-02, 8.792466330019731435e-01, 4.282241067278814706e-01, 4.284399074185339662e-02, 4.031253465041589323e-01, 4.198735505422264702e-01, 8.948985108531376520e-01, 5.437006325027909925e-01, 4.596480665492044815e-01, 7.807529992457522550e-01, 1.600023162377255947e-01, 3.334029844418871513e-01, 6.830567922978625361e-01, 7.317826629673879202e-01, 5.500910738026014712e-01, 7.483231667906852236e-01, 5.433470327421032753e-01, 7.761153962078383151e-01, 7.244247312949307904e-01, 7.763923742660625571e-01, 9.352668945494102548e-01, 3.377184723876756056e-01, 3.685674932863610143e-01, 5.221521863618509007e-01, 1.693154507597241787e-01, 6.278640554260100926e-01, 5.144254219374518877e-01, 5.244209115440061630e-01, 4.488035368958962490e-01, 3.028549962882336466e-01, 5.129891581993237804e-01, 7.120128027320824504e-01, 3.517788997275391599e-02, 5.291762182031556350e-01, 7.664398157308911497e-01, 6.010411213144478682e-01, 2.134644594454636890e-01, 7.416999755353631540e-01, 8.852009705425086805e-01, 4.568828546302006188e-01, 9.156860212807207411e-01, 9.032229746450468610e-01, 3.448589133318145233e-02, 4.756217350910086350e-01, 8.203384928894391637e-01, 4.385887631412841992e-01, 8.518063944161861079e-01, 1.425631679891114778e-01, 2.884374784444275197e-01, 8.645385348038571172e-01, 3.430136532254403070e-01, 8.177879980745487165e-01, 8.386775967711999902e-02, 5.481612255030757774e-01, 7.255383068899486088e-02, 8.841466668752776537e-01, 7.401037657556051030e-01, 3.909535255812564558e-01, 2.971980905208456702e-01, 1.301457430628155665e-01, 5.708771300082498001e-01, 6.539342436166651895e-01, 6.871100222778169231e-01, 4.068282293545457118e-01, 1.871530640236082621e-01, 1.738005121184958701e-01, 5.724007682713428968e-01, 4.963413803495017040e-01, 2.702690473566055629e-01, 5.497081806271068016e-01, 7.313465094406135236e-01, 8.673472480454955669e-01, 1.438657195251619447e-01, 9.320083456115971776e-01, 7.448406358674650729e-01, 3.599776490705215437e-01, 2.380591587764395722e-01, 1.249758590462725777e-01, 5.260925835685309471e-01, 1.493786063885322313e-01, 1.261582492487524076e-01, 9.129127240902578100e-01, 7.549329820062684604e-01, 9.763179843730587226e-01, 7.675850889573728741e-01, 4.453044679505948067e-01, 2.538238261340294843e-01, 8.827614078217580484e-01, 2.704830229239002515e-01, 5.006006797854021251e-01, 1.991577267245187854e-01, 6.969760475677712064e-01, 9.330654224145799036e-01, 6.441330583005799859e-01, 3.591074555537608348e-01, 5.396425448397940139e-01, 4.891916922159408876e-01, 8.552136169013984102e-01, 5.702212690192339783e-01, 5.036196059013842152e-01, 6.297089462670771853e-01, 1.919674079560283048e-02, 8.019997174463939782e-01, 9.214886422914015940e-01, 3.589549731219706663e-01, 8.603842662572005473e-01, 6.123556859979494282e-01, 5.745323563471594897e-01, 3.912081714486703721e-02, 8.246273530800019014e-01, 1.925680560187975898e-01, 6.140992671132361989e-03, 1.290916745588424897e-01, 4.536364315080438359e-01, 8.626987338272769090e-01, 2.045159552187202912e-01, 4.894480822113242424e-01, 9.275348026982831451e-01, 7.791010892679198774e-01, 3.398520644621981224e-01, 5.945212524372244234e-01, 6.527195158029031052e-01, 4.994970622025795004e-01, 6.897013838541307118e-01, 4.258016694593127344e-02, 8.832723129673762941e-01, 8.236186272652773477e-01, 4.352723549195870456e-01, 9.276057153852519666e-02, 5.208661383180273052e-01, 9.163759472580560450e-01, 4.509402832507885539e-01, 8.722032135201024383e-01, 2.281816832917360760e-01, 6.849566739457521036e-01, 7.035617207201495527e-01, 1.007155730119997789e-01, 5.097597979069562468e-01, 8.103435057165011557e-01, 9.420483396034562418e-01, 1.142458519703360570e-01, 3.334509669960334932e-01, 5.954582303806801313e-01, 8.714804574285434091e-01, 8.842360475383130858e-01, 8.026792874602347583e-01, 5.402495293491706985e-01, 9.264950297973987281e-01, 4.429520192564073700e-01, 4.921884536137545174e-01, 7.229274710349122834e-01, 1.890883877257517054e-01, 7.094169977028055296e-01, 2.826604679433915579e-01, 6.349641003281836227e-01, 1.503388828453864623e-01, 9.546492503209568214e-01, 5.880030374599581888e-01, 8.586522547390458282e-01, 3.921249078302126434e-01, 9.630353018311070823e-01, 3.778142663701158921e-01, 9.760423494550471424e-02, 2.692400341956843191e-01, 7.709599613565780718e-01, 5.343602340902554593e-01, 7.360530350934441080e-01, 6.245177408642164085e-01, 6.377910404117758114e-01, 9.140253092319712280e-01, 4.262848054544225440e-01, 2.587739190392553401e-01, 8.577626582202675376e-01, 2.923815477963488396e-01, 6.558651619264878052e-01, 5.644343804587501623e-01, 3.499960788849131865e-01, 9.093738275457995124e-02, 2.136087080234223279e-01, 4.736670328805752533e-02, 7.379914800045276335e-01, 7.857614067455744866e-01, 7.347923857717698903e-02, 4.855212493577517052e-01, 2.520552985678525260e-01, 1.675088834342840227e-01, 9.430458489973828629e-01, 5.395871372390985687e-01, 5.311567840627617887e-01, 4.620019852363541069e-02, 4.132266536942152402e-01, 9.400519213319897815e-01, 3.244678619105168579e-03, 1.922130336122206684e-01, 9.211046917034091397e-01, 3.838331000372638968e-01, 1.624065522936485040e-01, 7.451449177584067440e-01, 8.215230776841289106e-01, 3.189595813985208750e-01, 4.084731775335385673e-01, 8.408658950920653297e-01, 9.053976755031234447e-01, 5.167611451239034759e-02, 8.200949798640673194e-01, 9.280329769564782394e-01, 4.589043458289279176e-01, 3.894771926271179963e-01, 3.735171598622892275e-01, 6.183008378997136845e-01, 2.927959535680270745e-02, 9.913634500514370007e-01, 3.947674252598339373e-01, 6.148263312699477900e-01, 4.190457477121330432e-01, 2.640228035720286748e-01, 8.843808767432977946e-01, 1.189841080713304883e-01, 1.914252015869520041e-01, 7.122682665869237706e-01, 7.978122248711521092e-01, 3.486830212484501867e-01, 7.608677816935920379e-01, 7.324852362501025338e-01, 1.044338882958169151e-01, 7.705445943902953232e-01, 7.259203510618656985e-01, 5.299286255090933651e-01, 7.703093224009177620e-01, 9.020073078920717302e-01, 1.913236031361154887e-01, 3.470229125621822341e-02, 3.216583537582227703e-01, 4.429480237078178839e-01, 8.466711503446557874e-01, 7.835500340836323296e-01, 6.943825483489118877e-02, 9.574580267667671674e-01, 2.842332160185933598e-01, 1.068178315810318912e-01, 9.497215686670950063e-01, 7.935874057389724623e-01, 6.814294201854933508e-01, 1.973288990265009146e-01, 6.082422329612325873e-01, 6.993495057820712235e-01, 4.071400304677594839e-01, 4.676262188632022698e-01, 4.999602671280964916e-01, 5.007908718730215147e-01, 7.333266837479698319e-01, 5.783269149392094785e-03, 5.185060037652631237e-01, 3.790391495784101727e-01, 6.272142440479813175e-01, 3.956730513435979812e-01, 4.245133792847687881e-01, 7.632237330102973338e-01, 6.233587985298102430e-01, 1.201195917447050576e-03, 5.859817264767980260e-01, 6.677384621124863306e-01, 4.637229039336883130e-01, 8.853210672865846620e-01, 7.311970533662713878e-01, 2.682791705600003351e-01, 8.941931144587844660e-01, 4.626268308287269648e-01, 7.011757574383042924e-01, 6.832323283488289656e-01, 1.490275724097282761e-01, 1.761524247836059043e-02, 9.505736699853983840e-02, 7.787023716916111615e-01, 4.085213195214335569e-01, 8.920598383515128127e-01, 5.345472350699203012e-01, 4.503672487108265621e-01, 6.180847012616111913e-01, 2.425979148328168411e-01, 2.943540688075852452e-01, 8.043081166989747288e-01, 8.098590468804901799e-02, 3.463958838168843535e-01, 9.323772376974399645e-01, 7.237878064800690181e-01, 2.395970089256969360e-01, 6.233532475626590158e-02, 5.008551582519309431e-01, 3.628883359607537051e-01, 6.196711843036962764e-01, 2.077675631815776858e-01, 3.366953226553236478e-01, 3.883258061913206216e-01, 8.916133532576808740e-01, 1.138962037054229853e-01, 4.480528690413561055e-01, 4.301021112385953193e-01, 9.381797399773441626e-01, 1.671992521132932841e-01, 8.924336086736515128e-01, 7.336499739570749856e-01, 5.568739205347923438e-01, 6.254722328464746850e-01, 9.150361677381368963e-01, 9.000557134268463155e-01, 1.517991311911049412e-01, 4.687026774557382924e-01, 3.178288920251839955e-01, 3.250937949577723668e-02, 4.279220196096640838e-01, 8.944948639529491929e-01, 3.538677284044610682e-01, 2.533994477306111825e-01, 2.222552421976554948e-01, 4.633804867227487301e-01, 3.659520374947990984e-01, 2.901425575290795256e-01, 1.849332178276124339e-01, 4.859377379273309705e-01, 7.955388228233348791e-01, 9.118425247720448601e-01, 2.484547093488512770e-01, 2.077613069592997574e-01, 1.403258217562901033e-01, 3.966647850567068256e-01, 5.204228387202043393e-01, 1.213400355074902431e-01, 8.564765350204986971e-01, 6.223929658262989939e-01, 6.846167184601006372e-01, 3.899456320830521072e-01, 4.528703841961082555e-01, 7.088072286061591898e-01, 2.575094679107331475e-02, 5.102626325116645933e-01, 6.937009130244827793e-01, 1.652519706038472480e-01, 3.720713176480112683e-01, 7.523682732136223184e-01, 8.892768389630359982e-01, 1.357484282211794402e-01, 6.592913448751651362e-02, 8.617937879781626398e-01, 3.636200692587876482e-01, 2.468833220773077319e-01, 5.269939586263671094e-01, 1.787203932865724654e-01, 2.699270410090791050e-01, 1.508516552385754661e-01, 1.767703707293331594e-01, 3.105908157370351752e-01, 5.521528553662047312e-01, 7.303355352496989639e-01, 4.152552530579538548e-01, 6.855776705509830649e-01, 7.660999469566237563e-01, 6.460155974620830355e-01, 9.007408922319054545e-01, 4.931840607458989334e-01, 2.407048713620704994e-01, 2.936325309592067306e-02, 2.115024574918664135e-01, 7.215715222302716558e-01, 8.139734419248858543e-01, 1.342002757850723205e-01, 9.515091113608453721e-01, 4.222080644587187237e-01, 2.739886566747068430e-01, 8.526861237027935081e-01, 7.119556034490283070e-01, 5.953666060770157475e-01, 6.614825321390986890e-01, 8.132178799580411788e-01, 7.291716999727253512e-01, 4.953578923372401466e-01, 2.975404025116475115e-02, 4.334566843979821837e-01, 5.035278221741353866e-01, 5.468544147178305836e-01, 4.943527471479272628e-01, 9.293983830569790827e-01, 8.240630609199861567e-01, 9.949126645162092997e-01, 5.370771287781713754e-01, 8.434187528052738969e-01, 2.673027816278323102e-02, 8.525194744289856796e-01, 9.384758277326676890e-01, 7.646727014056113880e-01, 9.466347883790575679e-01, 7.419649707963306140e-01, 7.216946623314154929e-02, 6.966000248149514795e-02, 5.508740143113218801e-01, 2.123503622177181360e-01, 1.406120839008451195e-01, 7.288473751412329893e-01, 9.189402666200321423e-01, 2.678144681820440742e-01, 2.248189713365280340e-01, 7.039235380557867794e-01, 6.166801868758673422e-01, 9.367572618408464002e-01, 5.215274559101804597e-01, 1.763085960889635984e-01, 4.221981136911169830e-01, 9.218116691964313159e-01, 9.678337093056487150e-01, 8.664649961117645294e-01, 7.948856194125191177e-01, 5.245739250131747911e-01, 7.172318595371484085e-01, 6.190359798993435581e-01, 3.928596539170853830e-01, 7.724650502990149104e-02, 8.705827150709825046e-01, 6.345815842055482214e-01, 3.063775467453949131e-01, 6.345056730143107115e-01, 9.087015485904047507e-01, 5.397444505167855455e-01, 1.214317073303047695e-01, 9.759102511007503589e-01, 5.041822529905861661e-01, 2.018458374563714824e-02, 7.311793744502420589e-01, 8.815222341223060143e-01, 9.092712121180498430e-01, 9.172887396161781837e-01, 6.292520777706903656e-01, 4.638533988305520994e-01, 5.526844139624629282e-01, 3.536411535698405170e-04, 8.889533895469776681e-01, 9.236182734199479549e-01, 4.285079168352701195e-01, 9.673516340697845273e-01, 4.271890410601574262e-01, 7.435872625827758542e-01, 3.101470660603883323e-01, 7.386308527467901897e-01, 9.593346838143519406e-01, 3.050017750776500350e-02, 4.527643104782334560e-01, 9.967993009025664097e-01, 4.007572888930978072e-01, 4.451713102267744748e-01, 8.691847619094430488e-01, 1.338768065207685855e-02, 9.073537233280231096e-01, 1.616636292427613142e-01, 3.670064651616424672e-02, 4.067871774296404341e-01, 4.421749433277138985e-01, 3.013547487005167613e-01, 6.856620398407205219e-02, 7.464690343863362720e-01, 8.184317451597860060e-01, 2.276698483124714179e-01, 6.954058451834037591e-01, 8.685161112080952428e-01, 4.589285363154875230e-01, 6.923611835671735770e-01, 1.542948664145800571e-02, 7.386080215394830173e-01, 5.843426380511495405e-02, 1.281289733571983058e-01, 2.720149048738719211e-01, 4.637976445450943119e-01, 7.489241513746852652e-01, 2.637923346957333215e-01, 1.390830216727102497e-01, 6.287269149406634616e-01, 7.321232051590939038e-01, 9.803234034982086786e-01, 7.651255303093079663e-01, 6.187285981638908083e-01, 2.801642409505565312e-01, 3.781477006139293273e-01, 8.216562443767242430e-01, 3.612032812350178812e-01, 4.248804540218058950e-02, 9.552326567182485573e-02, 2.448694147913047306e-02, 8.603607712800617202e-01, 4.267294587163657504e-01, 6.942731346389502400e-01, 7.318271285625509437e-01, 9.296189541386638000e-01, 7.192990652353398184e-01, 5.913203100866922801e-01, 6.963322320237189667e-01, 6.576537497798707887e-01, 8.857070046775737948e-01, 2.461489201274175143e-01, 9.937834509138808725e-01, 6.898646458300381479e-01, 8.446857997950170116e-01, 8.181541663251760133e-01, 5.699687580632081252e-01, 2.249908614856667155e-01, 4.478783541163656734e-01, 7.257997275001303317e-01, 6.301647359161489659e-01, 3.412098976943095940e-01, 1.117635660170506751e-01, 2.898378535792314192e-01, 4.170533778511548162e-01, 7.128383757205838389e-01, 7.877983735353952799e-01, 2.011904930613207243e-01, 4.969262973970908215e-01, 9.739646473710433794e-01, 3.130413015733510829e-01, 7.881814382333315328e-01, 1.704122425509339289e-01, 9.098679342973737816e-01, 7.630786826125951494e-01, 8.984907190252928721e-01, 4.608106415866535244e-01, 5.952910966678324201e-01, 5.274661134731959411e-01, 1.324275415008235174e-02, 8.941973835884075017e-01, 9.372489967400792210e-01, 2.492576177561655060e-01, 3.938909072663314137e-01, 1.907487818267339028e-02, 6.948177447362893777e-02, 6.049515558951564786e-01, 4.220564579120144599e-01, 7.480187557448718660e-01, 8.684978554446614041e-01, 7.425425514363058754e-01, 9.602331498108787056e-01, 5.949036742697129121e-01, 4.404634866498640111e-01, 2.897542032980804372e-01, 4.580253777008533866e-01, 2.379697704865825769e-01, 8.883950501163718760e-01, 4.701271649294220256e-01, 2.004911536028573249e-01, 2.524952313247412206e-01, 5.310312375188337430e-01, 2.856410539040403762e-01, 6.215668065258843633e-01, 6.709627544841951785e-01, 8.755884000228703057e-02, 6.205446584734087834e-01, 6.136678537180112469e-01, 9.274923237917589436e-01, 9.217795764268438274e-01, 7.615488853227411203e-01, 3.250679401924709833e-01, 8.174106365357078907e-01, 5.178709291693845973e-01, 7.597042494044083938e-01, 4.545317045494975394e-01, 9.526800178746573922e-01, 6.430406407549078551e-01, 9.657613936836393354e-01, 9.082159533053489886e-01, 6.337908370282147041e-01, 1.139033456914227971e-01, 9.874697121718936099e-01, 6.571331758633627285e-01, 7.910272035036762794e-01, 2.654157098232753365e-01, 5.929890374983163293e-01, 6.176096817518499371e-01, 9.352038867666272182e-02, 3.853623594231134208e-01, 2.251387765043917633e-01, 4.953942184214102928e-01, 9.895698285941499917e-01, 7.977904420702142119e-02, 8.810643540901690329e-01, 2.758537664422857638e-01, 3.668022384772959832e-01, 4.094950928278486835e-01, 1.766496528725461646e-01, 3.925638615986924429e-01, 9.904856638394040624e-01, 1.215474613184247127e-01, 3.473070756192263020e-01, 8.502885302494879172e-01, 5.953621785954538170e-01, 3.565257035697568244e-01, 5.179693035854280314e-01, 3.139935262336375210e-01, 3.402622142610034484e-01, 6.006933723893304045e-02, 3.196149374200756843e-01, 6.524428648343826020e-02, 2.365398016328012221e-01, 9.086382949551046195e-01, 3.907505835922238657e-01, 3.020715194245915947e-01, 6.402703744036274403e-01, 4.017125629528209979e-02, 6.859379582526761165e-01, 3.436830075480885038e-01, 2.997206846250373147e-01, 5.540355449034214952e-02, 6.404850935755510531e-03, 7.932124526073032200e-01, 5.308439246725347171e-01, 6.810750103118239085e-02, 9.313687919846079799e-01, 2.405404505911901691e-01, 3.596226924336785036e-01, 6.568241009068922498e-01, 8.523588970365548745e-01, 4.474454461993731536e-01, 9.707100029937105745e-01, 3.640325375212726811e-01, 2.676651481110566277e-01, 6.109985017129591078e-01, 5.627455902967140045e-01, 2.827013345750022943e-01, 9.716316825777465693e-01, 8.751570304520143173e-01, 6.182146755546478190e-01, 3.476111724927298807e-01, 7.679107077627508327e-01, 4.041004142883552336e-02, 4.314908645945815246e-01, 3.003536750755065876e-01, 3.440150174035029318e-01, 8.887900315698468168e-01, 4.866995219303582587e-01, 3.741963673764949205e-01, 8.837241456906191894e-01, 5.112839982775646552e-01, 3.591824384460806097e-01, 8.416380426895611055e-01, 2.810587908171424676e-01, 7.418275849110168574e-01, 2.863813714787292741e-01, 4.361223415303342454e-01, 3.380140641947830538e-02, 5.679430019235516269e-01, 9.066296406570795163e-01, 4.100172013960995954e-01, 4.338878921865826910e-01, 9.098502032457432831e-01, 2.918673376740170688e-01, 3.896040782339513231e-01, 3.881547539864536600e-01, 5.344744667353873435e-01, 6.574258797089862494e-01, 1.493352215296752938e-01, 9.722684565972684878e-02, 9.803102239043276489e-02, 3.066433441093997514e-01, 8.906137836109285777e-01, 9.472790295233821656e-01, 2.256164573929713979e-01, 5.496764954460117009e-02, 4.051549394402256254e-01, 6.937700038629275312e-01, 5.563166694534814605e-01, 3.880983879724558827e-01, 4.693257868851724024e-01, 8.058996838950516217e-01, 6.530498941404452307e-01, 5.229402922877698368e-01, 2.600176474348788180e-01, 4.711247444475322732e-01, 3.428154667146450785e-01, 3.775081125592797404e-01, 6.279626838013114831e-01, 3.437354637974211757e-02, 6.537819198031781243e-01, 8.643666560004649169e-01, 4.191702418252708506e-01, 2.465393953788089509e-01, 7.797423006388447542e-01, 2.749777698800917602e-01, 4.564039805528021243e-01, 3.848068848181650514e-01, 4.857807467611530150e-01, 5.986397556945931564e-01, 4.526788232842474113e-01, 3.882891463853872516e-01, 8.429624187665220036e-01, 1.254130828072231307e-01, 5.521152013398830105e-01, 4.419247809097279767e-01, 4.732679081250911191e-01, 3.923150326908010632e-02, 3.013987973358855377e-01, 2.410708861052099708e-02, 9.268838916279473761e-01, 5.720233371377291265e-01, 9.553565874343965536e-01, 3.772931280207418303e-01, 3.117594404642080597e-01, 3.044573957177287293e-01, 8.780244489539393848e-01, 7.181445947173711319e-01, 8.939089792617586072e-01, 9.523072692969093422e-01, 8.569178255014981982e-01, 6.331809968351059803e-01, 1.191092204171267377e-01, 7.659586128673024907e-01, 9.410756560859965258e-01, 3.305883206140557418e-01, 9.143111599647484322e-01, 5.656423616653074582e-01, 8.970380544904265063e-01, 2.795782399723804046e-01, 4.806585150645394378e-01, 7.498442093260926367e-01, 4.164817988596784537e-01, 2.856514178247612779e-01, 7.670170974009077325e-01, 2.727936861548254655e-01, 2.982725363580445571e-03, 2.428716086981715649e-01, 1.229584725007753093e-01, 9.236488257768465937e-01, 1.735524962038416941e-01, 3.484250041292078492e-01, 6.398869252903816029e-02, 8.388710044969386326e-01, 6.176759540986734853e-01, 8.647617965746912105e-01, 2.538782004150365659e-02, 8.999889199693843211e-02, 3.178725123359775195e-01, 1.885965654381091261e-01, 8.540092167363583231e-01, 1.835151247111499184e-01, 8.083174407650454141e-01, 4.230282577905156716e-01, 5.959710739752343001e-01, 6.468228990169595516e-01, 2.784730807009450082e-01, 6.066737805766044822e-01, 8.900063496610002289e-01, 4.146131460444239109e-02, 2.941639623719841112e-01, 6.284946861120077610e-01, 1.717484879815401044e-01, 8.132883816154129475e-01, 7.410153152542871269e-02, 4.294866569043305216e-01, 2.880610186091982911e-02, 6.092515382646648270e-01, 7.576458974655888579e-01, 1.516376691203115135e-01, 3.696968177284210566e-01, 9.301136692828194663e-01, 6.457637373808611247e-01, 8.183176704511525568e-01, 9.896096964095439930e-01, 5.105128093957287394e-01, 6.227428556067154952e-01, 7.446680155806560952e-01, 3.093568875858034029e-02, 7.412169308904772991e-02, 6.977912125772834928e-01, 8.536639231349814338e-02, 9.979508258993271541e-01, 5.763820195012068215e-01, 1.833151180317701689e-01, 5.661319174457495329e-01, 4.530546825029241331e-01, 9.150718255236965915e-01, 3.301240195474365868e-01, 2.390728316745845405e-01, 7.019164887539330877e-01, 4.642998675804949765e-02, 2.795311397537394993e-01, 9.655100191255434616e-01, 5.956373838265938483e-03, 2.631974979074201415e-01, 2.842381428173111346e-01, 6.171178785853179694e-01, 8.380842263854358654e-02, 6.923787563013464874e-01, 3.163300650714376272e-01, 6.180506525884433833e-01, 4.078023505643129099e-01, 7.990881470772758233e-01, 4.035168370660426884e-01, 4.513236305611273425e-01, 3.436882606855541367e-01, 8.709008769655177673e-01, 9.337475538986158563e-01, 9.571431662196417944e-01, 7.018199760195649173e-01, 6.798651670995570218e-01, 3.496285501957877712e-02, 2.702321672102703243e-01, 1.207278796136862509e-01, 3.953549200586508466e-02, 1.571421560403248692e-03, 4.517685550879656509e-01, 1.605506088410833254e-01, 9.950418419109434698e-01, 4.594245296035546211e-01, 6.041545485262146409e-01, 7.959272850709524505e-01, 8.046453813405745059e-01, 1.195703453677157135e-01, 8.760120950728629285e-01, 7.336680025918574932e-01, 4.016203071896930488e-01, 3.582942367655764793e-01, 8.694318794375184289e-01, 1.425712885780305028e-01, 5.481826257475477249e-01, 6.512073630201553609e-01, 2.755176780454599572e-01, 5.073539170844458823e-01, 8.829265201335401159e-01, 7.935540374839993305e-01, 6.839842785697474170e-01, 5.286094118073583203e-01, 5.636411355012446167e-01, 3.854570152413676620e-01, 1.472527875955442489e-01, 9.972010492655986047e-01, 7.311571211628029587e-01, 2.171866848496425417e-01, 8.686926694484943257e-01, 9.504706343223788823e-01, 9.373460507181003987e-01, 5.581088309557670213e-01, 1.479318881459213697e-01, 8.804678994920595025e-01, 8.252141943968505089e-01, 6.468499850795238482e-01, 4.245847344216205910e-01, 5.158231963284314325e-01, 5.807731811941527766e-01, 3.075533635784434838e-01, 2.940288018375263324e-01, 6.250122452143880292e-01, 1.770906682616178174e-01, 3.948209033640913690e-01, 5.866641441926770950e-01, 6.720259851233593151e-01, 6.316230473882789020e-01, 7.604761245639232170e-01, 5.349897199015423155e-01, 2.427328572535769891e-01, 3.376247537307178748e-01, 6.256931060231435415e-01, 1.592063342834734996e-01, 1.472659251787550028e-01, 7.589237302885699643e-01, 3.299667392994826837e-02, 8.435021064705265914e-01, 7.025134795365070017e-01, 8.193394270930742795e-01, 8.285505762768810012e-01, 2.405890936830683002e-01, 6.151959826045408919e-01, 5.013602457161071557e-01, 8.866539609071764083e-01, 8.995600667138845541e-01, 1.608146230012122702e-01, 1.880097690747067896e-01, 4.548392213635095715e-01, 7.933522386980141894e-01, 9.084168004688075726e-01, 2.216687291163609852e-01, 5.184188316711627609e-01, 5.346951938975282870e-01, 1.299558863398693753e-01, 9.555329581827147756e-01, 3.021719068602251035e-01, 2.731386896413141030e-01, 8.222403173462884685e-02, 7.233019368579259867e-01, 8.925652165230331114e-01, 1.099209253040138966e-02, 1.191025926472830537e-01, 6.719042403991881685e-01, 6.469254321114438211e-01, 4.979072149730628394e-01, 2.914369754773092625e-02, 2.091259869597419663e-01, 4.479629016961838572e-01, 4.574202852301263444e-01, 7.997335229335005291e-01, 1.931994154680359288e-01, 7.525223221163228615e-01, 7.136278934582348521e-01, 5.419242311916504518e-01, 1.171486773066493930e-01, 4.442712906427185859e-01, 3.621075111313554751e-01, 5.101902813960691452e-01, 2.255125613907532633e-01, 5.440058321054108692e-01, 1.400969018552948864e-01, 4.533658001529841663e-01, 2.786721759249591868e-01, 2.262589040751952496e-01, 8.493187784255602502e-01, 4.521376636101833713e-01, 4.247578446580609901e-01, 3.771056436431636794e-01, 7.312671626293294480e-01, 1.382797692409303281e-01, 1.504362550170920410e-01, 7.311628023161824419e-02, 9.060177681450278797e-01, 1.475114276224859244e-01, 9.989688950460897665e-01, 8.474915875518828079e-01, 5.602119645474142873e-01, 4.588452056035545457e-02, 1.549437904915773601e-01, 7.033178475530051932e-01, 4.358158222108650670e-01, 2.503307926976386377e-01, 2.997478232870094406e-01, 2.979142023494942282e-01, 8.907176648600574342e-01, 5.458075462162936126e-02, 4.716154307778416266e-01, 7.956893244537498466e-01, 9.671629565574036969e-01, 7.235620936360191990e-01, 6.942802959529046358e-01, 4.194306935924927981e-01, 4.956534408810009396e-02, 9.533053200367217483e-01, 5.916975139063018752e-01, 5.770809146485461616e-01, 5.525123546454417944e-01, 8.282495868485797441e-01, 8.637946443196794499e-01, 1.502101750873162944e-01, 3.730725200797683216e-01, 7.705816844533763810e-01, 5.137345446564808293e-01, 8.619807691915806203e-01, 1.454268866822392703e-01, 2.775360807179150791e-01, 7.676347174344484436e-01, 5.683508346333344674e-01, 2.005426757627876977e-01, 8.592342739923577444e-01, 6.259804114202121017e-01, 5.423255801730052506e-01, 1.386336276021613856e-01, 4.416441566256655293e-01, 8.233536899890488980e-01, 9.919959833772593605e-01, 9.292293280367636132e-01, 7.879321520284530145e-01, 1.594510392804120713e-01, 9.267432078603486945e-01, 2.779308475351432994e-01, 7.882355723468761344e-01, 3.645612882777069519e-01, 6.378436262004353319e-01, 9.669978822891472925e-01, 9.593138454362072354e-01, 3.476637579685869506e-01, 1.202624724989151753e-02, 5.998455958455920500e-01, 3.327714478784445373e-01, 6.197961192395677610e-03, 2.441172926597714732e-01, 3.393145438435313938e-02, 9.047184762752344955e-01, 9.143705857784745206e-01, 6.638336427854703015e-01, 3.472444972610528313e-01, 3.097977032346515558e-01, 8.245226588101240983e-01, 8.619908651689747181e-01, 3.343829946984502310e-01, 6.212617541787182063e-01, 6.161075418981707408e-01, 5.150784877855982824e-01, 1.436541198590384760e-01, 2.082629191795332957e-01, 4.929052634234067920e-01, 9.906272674151928026e-01, 9.640825262609974133e-02, 9.454604477663240691e-03, 3.904497868155388796e-01, 1.639044307247077559e-01, 5.953180104866557798e-01, 7.735574932247852864e-01, 5.750183409513969224e-01, 7.253980133512114570e-01, 5.074057882499909411e-01, 1.087823913220366256e-01, 4.531397261831569545e-01, 5.717017192379822976e-01, 8.721154423774805098e-01, 1.872647183559063289e-01, 9.430310544194239197e-01, 1.665500704371224855e-02, 7.308094922393866544e-02, 7.310742592266553652e-01, 1.100603237656635480e-01, 9.066799913501956132e-01, 7.418014910072867618e-01, 5.480621596767732973e-01, 6.404578305751322809e-01, 9.467382436585339844e-01, 2.569675652557925072e-01, 6.288415471695322223e-01, 2.837957582901168285e-01, 2.271525558305566572e-01, 9.264870135061200607e-01, 9.195927585061124399e-01, 3.135473354010930302e-01, 7.169677544922650747e-02, 6.741634928054052178e-02, 6.349056020693066849e-01, 2.308630326728701720e-01, 6.161512786804697051e-01, 3.846614406847250756e-01, 1.179900329885901766e-01, 6.037805342385317298e-01, 9.369539635750239182e-01, 5.653201119432682553e-01, 2.740408443212259959e-01, 9.933526957376670463e-02, 3.694676212404269799e-01, 4.554216147618920796e-01, 8.498760134714992143e-01, 9.489634394996626643e-01, 4.764861016379842718e-01, 1.311119766368951112e-01, 1.727338164532448983e-01, 5.813195605130795363e-01, 8.261537769468271231e-01, 1.182106715865161202e-02, 6.308005139361115843e-01, 3.462352754735862903e-01, 6.162767214575191055e-01, 7.675488494148864360e-01, 2.151117013010501733e-01, 8.844260899343536764e-01, 4.621760195926695181e-01, 7.736486748326988350e-01, 2.446754428575269591e-01, 2.837945088782288239e-01, 2.721588200441389382e-01, 6.523976748425883709e-01, 3.716689159340655912e-01, 4.122224743199879304e-01, 5.546601803008166520e-02, 8.213363398601034593e-01, 9.046882318756123420e-02, 2.488236327561352546e-01, 5.147126263427326265e-01, 3.202599300416640316e-01, 1.732402056224214282e-01, 4.965631329793486481e-02, 4.896390287421492626e-01, 9.092842997276645578e-01, 9.965581324292382970e-01, 2.049135457724161197e-02, 7.024078241134478207e-01, 2.289976358810965618e-01, 5.423453410899226057e-03, 6.568887871768116504e-01, 2.968997958960491457e-01, 7.528045990114777819e-01, 7.677189601888618764e-01, 8.038596120588115124e-01, 2.220231063589891973e-01, 9.385365510514047660e-01, 5.882454890866967157e-01, 2.598516730455428525e-01, 1.095981995792242314e-01, 2.722115221953515518e-01, 8.133415516743720541e-01, 6.647140292329699607e-01, 5.342300732957220299e-01, 1.510884580026525537e-01, 3.413740983621730285e-01, 4.778970165760775268e-01, 4.670112123770554513e-01, 2.396264727700866404e-01, 7.915289237348328566e-01, 4.307104027185768014e-02, 8.705283875871808741e-01, 4.396849413698782350e-01, 3.316926950315221556e-01, 6.249479532849989694e-01, 9.472552523171685612e-01, 8.966373007202055323e-01, 4.912036382068832134e-03, 5.812718925975579598e-01, 8.966442386245588869e-01, 7.175813067092141617e-01, 8.775692817736250317e-01, 2.785305231999108400e-01, 9.531478764703461837e-02, 8.073695393473537818e-01, 3.135913344317937668e-01, 6.844913846976006244e-01, 5.746745634361057065e-02, 5.785027444490312698e-01, 8.772641562347237576e-01, 6.420356373911849657e-01, 4.500924831119058056e-01, 3.676139795394521292e-01, 9.997314885942647500e-01, 7.605947798388601466e-01, 9.507109554656403283e-01, 8.627516590657374751e-01, 4.401672358395166684e-01, 4.963886513862533212e-01, 2.907453068012805231e-01, 1.486069803829513924e-01, 1.130788144902322018e-01, 7.190583217047223918e-01, 8.032875887975073903e-01, 9.007665235083672783e-01, 8.603108595557059646e-01, 1.751033854112221955e-01, 8.377153310577372114e-01, 7.196511337192017521e-01, 8.833969000339922939e-01, 6.396702341355152699e-01, 2.342155926614594152e-01, 6.594864265654389879e-01, 5.324172984830120026e-01, 8.081443282683553608e-01, 8.005900702489175957e-01, 6.101561843099195803e-01, 9.261167221574774233e-01, 1.860463626188686714e-01, 9.610078475325530833e-01, 9.894723385711420294e-01, 7.491932598746973149e-01, 4.182080094279447824e-01, 1.029751365048800840e-02, 7.514540087916018463e-01, 6.082317676474559009e-01, 1.690678205225772113e-01, 7.703924441907447074e-01, 8.070139727854559464e-01, 5.618841577874514881e-01, 4.390610893202451237e-01, 3.813048781947629418e-01, 9.731749505706218661e-01, 6.109142845850688008e-01, 5.925854027406349811e-01, 9.199230050702611461e-01, 7.481107945945794091e-01, 3.140810726392263552e-01, 6.537067586871764258e-01, 1.027513851016111507e-01, 9.198344568445004921e-01, 6.925851144944910054e-01, 9.337904933306643285e-01, 5.886759045373296528e-01, 2.113666227741693437e-01, 6.115431670205526693e-01, 1.182856926161480748e-01, 3.977126240854168548e-01, 8.318008990514307310e-01, 1.433531277205533083e-01, 3.840956919751868925e-01, 9.310341686025872532e-01, 1.327235590307272173e-01, 1.544694870471190543e-02, 9.926403874279864370e-01, 1.864330203294292110e-01, 8.463689654423439679e-01, 3.501243667833123241e-01, 8.638541857540334989e-01, 3.085019498989166609e-01, 8.428888973209108793e-01, 3.922135559625148926e-01, 8.393245080608843223e-01, 3.100022413769688567e-01, 8.248057816129558129e-01, 5.205634602203793593e-01, 9.548060290713639153e-01, 7.467542090113233888e-01, 8.255005717420095535e-02, 8.123507868227087814e-01, 3.802130369090181983e-01, 9.570170189450913911e-01, 7.957828645532131207e-01, 9.705881061595311721e-01, 8.112448055567125227e-01, 1.111429713022888122e-01, 2.317397963345264877e-01, 6.030741055286468200e-01, 2.072277794873443602e-01, 3.653203674371054421e-01, 9.783630466989083896e-01, 6.487983421431912090e-01, 1.507978423676711310e-01, 8.155538917618392336e-01, 4.808587955479619036e-01, 5.497127590674567577e-01, 5.308129908399656927e-01, 4.363207931293530684e-01, 7.177933359848990280e-01, 2.114300506611302422e-01, 1.691293865369991600e-01, 3.656023467255564707e-02, 7.200340530697142416e-01, 4.737698603503083805e-01, 2.822391016638094441e-01, 6.559649414326188532e-01, 8.665101090911890847e-01, 3.975641174117767185e-01, 7.256193237529782181e-01, 7.611716108367877487e-02, 5.560042744226141309e-01, 7.929605330824210929e-01, 5.535133213363360172e-01, 4.249752127269564306e-01, 3.603939235495083881e-01, 8.973516246727835100e-01, 8.757158514702334529e-01, 7.315026889701090607e-01, 6.827341120074579273e-01, 6.786866692242883303e-01, 3.942135092270354635e-01, 2.555518986520483038e-01, 7.339348004015723292e-01, 8.815304459258374026e-01, 8.139058682077772167e-01, 7.443142982593333734e-01, 5.962699678002310044e-01, 2.909149171280679957e-01, 2.611245011906876412e-01, 6.145433410431939691e-01, 7.541119826103493962e-01, 5.792466024077829179e-01, 5.810888848983954968e-01, 1.694541677330323737e-01, 7.630748227848749288e-01, 2.787082786830825110e-01, 9.263742917605360949e-01, 3.862842479273155272e-01, 4.165766650330025578e-01, 5.636683208824101454e-01, 3.122563902399794200e-01, 9.510544345241158659e-01, 3.085332744444232445e-01, 8.046020529714255076e-01, 6.652729013851699236e-01, 2.291368403103475337e-01, 3.691264785522905822e-01, 9.167305632694887629e-01, 7.586289233949055077e-01, 4.021035365789157323e-01, 8.631089108648305475e-01, 1.199807461979415651e-01, 3.166893995883598989e-01, 7.823285274475013651e-01, 8.811708135458239388e-01, 5.019869591707155909e-02, 8.554074308728603082e-01, 6.814848271276359171e-01, 1.127153468736056263e-01, 6.397228719976565392e-01, 1.301866403660373872e-01, 3.792800957652426863e-01, 3.978502025622592253e-01, 4.520136236251633965e-01, 8.659274053779463243e-01, 4.685428398296657138e-01, 8.829386575094501088e-01, 5.639280499097043542e-01, 3.956164969192215164e-01, 1.932244651507087074e-01, 8.598577814176537881e-01, 9.838594533406601617e-01, 9.877479891815153790e-02, 5.671380120256139801e-01, 9.930939814043608926e-01, 5.802091763813801428e-01, 7.904316909618507303e-01, 6.190787982368882725e-01, 8.019141033255452466e-01, 4.561519795717984826e-01, 7.782130544290122298e-01, 6.770455512900066530e-01, 2.026187014326780722e-01, 9.102967452868531151e-01, 5.967605805349768255e-01, 2.946135149594920621e-01, 7.305924632171789668e-01, 9.760012582273328574e-01, 9.662824254760400411e-01, 6.773057257475909587e-01, 8.216982038424714974e-01, 5.769940776255360060e-01, 2.096835439019250832e-02, 5.964987370145335283e-02, 1.686513488959834675e-02, 8.609352123841378379e-01, 1.563743862474334390e-01, 8.475368046541750244e-01, 7.566996547970761267e-01, 9.888794291592722940e-01, 5.431532427599417012e-02, 7.128216732874903538e-01, 8.331402316736896685e-01, 5.554083614519635947e-01, 3.980209818143439215e-01, 4.499927419977891585e-01, 1.786052745335979519e-01, 1.410509737545724840e-01, 3.859438998926276176e-01, 8.833555878211037937e-01, 8.062799687173729524e-01, 7.862061590732564165e-01, 2.860878915462392591e-01, 7.078713394664361003e-01, 6.299010192479714831e-02, 9.703986198315138756e-01, 5.056012089348371069e-02, 6.105105698300410388e-01, 7.239705769905289967e-02, 8.012979115430863830e-01, 1.996710194870476573e-01, 8.334563000774982688e-01, 6.512563553423744711e-01, 4.008219054599502784e-01, 2.720688874312366945e-01, 9.300558385609429546e-02, 6.751771904482360975e-01, 5.516509568949560238e-01, 6.785570111113558012e-01, 6.089335670096315267e-01, 4.160680179692800018e-01, 8.377989105944088077e-01, 8.347621201154272752e-01, 3.146654402978718013e-01, 8.914394233806796075e-01, 3.816010493331258302e-01, 8.986506651630518094e-01, 6.776538850244373524e-01, 1.631477677700749751e-01, 4.377749387725868302e-01, 8.656008151256057159e-01, 8.314954175965942884e-01, 3.472541648657844204e-01, 3.100000090154330645e-01, 5.664456739009819941e-01, 4.787532107940636328e-01, 3.188111083190700024e-01, 3.204499161090815229e-01, 4.057111176264823760e-01, 7.813358870169013759e-01, 8.479616861157990293e-02, 6.984266603215525393e-01, 6.364739201078227770e-01, 6.759046991848564057e-01, 9.154346233420639356e-01, 8.807391568677108706e-01, 9.532495178557186533e-01, 9.214796824919923024e-01, 1.110285793080858785e-01, 6.740768452720821147e-01, 3.251458982279165078e-01, 5.281672217095098043e-01, 8.351698120047934548e-01, 7.647919472244005812e-01, 8.706582919570674539e-01, 8.438091745761689966e-01, 2.490283192737513251e-01, 5.177892875962738506e-01, 4.172645825224309823e-01, 9.598278605946646280e-01, 6.435170447928072468e-01, 5.443762117067919570e-01, 8.351964833837577373e-01, 2.893194833733934643e-02, 7.005265189540744730e-01, 2.002230380377557351e-01, 8.068352495669971480e-01, 2.709951250454136762e-01, 4.511914691315944692e-01, 4.332257989710991408e-01, 7.986213310124963272e-01, 9.473788324545865391e-01, 2.688943675779986164e-01, 4.068973798716311041e-01, 7.914231292630853343e-01, 1.418494427659642565e-01, 2.182316434501575253e-01, 4.743205375677890245e-01, 3.188309184694933518e-01, 6.403586279712645268e-01, 6.853716287987893230e-02, 6.736436442126653157e-02, 5.197265049768741152e-01, 8.031412189833604387e-01, 9.623465130045696370e-01, 4.946747333246215850e-01, 7.558917741142492375e-01, 5.919425364579895543e-01, 3.185692759220637438e-01, 5.896493643902123855e-02, 6.456922581025620334e-02, 1.044033934145290402e-02, 2.052502221095142410e-01, 1.452077052855383910e-01, 2.975946824631781062e-01, 7.820107605066068945e-01, 1.139827272846309081e-01, 3.686390036605361464e-01, 5.248063123386638162e-01, 5.578063109337124681e-01, 1.108715790394332323e-01, 3.303553749370768955e-01, 4.072784850017081015e-01, 7.178209915740155211e-02, 7.879037147049359202e-01, 4.344471716207011780e-01, 6.823002176807123620e-01, 3.906494842333826378e-01, 6.172028626337917601e-01, 5.875984120329367233e-01, 1.021154055472473926e-01, 2.611165311347716789e-01, 7.502304848869372211e-01, 9.289310831537089808e-01, 2.831131899479119585e-01, 5.083316178721463130e-01, 2.247558506084420260e-01, 6.756877901074096471e-01, 6.266273615840441957e-01, 2.179621119006824592e-01, 2.072292617381659152e-01, 1.605620175909564240e-01, 8.109030110466488583e-01, 4.454900239083964264e-01, 7.768563611389006640e-01, 7.552416332028266677e-01, 7.883296358024793893e-01, 3.017424580370144382e-01, 3.000572480945931098e-01, 7.336033699218078574e-01, 1.893040991181307031e-01, 1.237025438123661586e-01, 1.673067714092206781e-01, 1.923696655191641522e-03, 4.747793138126346624e-01, 2.475443426156471172e-01, 8.825738867818002653e-01, 8.270093916769997167e-01, 5.017801219337739704e-01, 5.249615506623340755e-01, 4.111654845347471054e-01, 2.850024939159273019e-01, 6.176979877619266368e-01, 2.666361142226486569e-01, 6.884188634973953391e-01, 8.260416161300359050e-01, 8.279836656585407573e-01, 3.731039555368874383e-02, 5.772952955501807759e-01, 8.112219247724590243e-01, 8.796145055986059891e-01, 7.773461807572580318e-01, 3.334101190559540240e-01, 4.236001637588719948e-01, 1.573901219426149523e-01, 9.714616300255056736e-01, 6.191583814934928931e-01, 6.159203468884196786e-01, 3.713455785331163939e-01, 4.324131528771304467e-01, 4.680554517007697313e-01, 1.832634849361448603e-01, 3.337000624239375712e-01, 4.802767014970162895e-01, 9.090045043569124905e-01, 5.981143905494146207e-01, 9.326836280437756921e-01, 4.047178670330178196e-01, 8.551573570091248744e-01, 1.865691669231247518e-01, 5.305991611882353576e-01, 6.331685814042277427e-02, 2.740597793318764186e-01, 4.933871015750909694e-01, 4.813371554525493479e-01, 6.333244253015694047e-01, 6.635902390919811156e-01, 5.318159358381095991e-01, 1.680468346317518791e-01, 3.601810731345298500e-01, 5.276736866200981702e-01, 5.809478493133632959e-01, 5.116715819291691725e-01, 3.931102294811850834e-02, 4.227769109900686995e-01, 9.007704128835146706e-01, 2.511299529698270416e-01, 9.595343372450326758e-01, 5.193663574946698613e-01, 1.160384871437904197e-01, 9.877769081250389327e-01, 6.672959055020926122e-01, 1.795361092045602014e-01, 4.462079645864051591e-01, 6.004275106117569205e-01, 8.615520422738340289e-02, 5.849339845236234403e-01, 3.544116854064088273e-01, 1.865957639274432034e-01, 3.243621064966131090e-02, 7.158729872357708635e-01, 6.935030848649201829e-01, 7.854030675541889828e-01, 7.907728170646438626e-01, 3.893787256100718075e-01, 4.481532512874660257e-01, 5.709509582154694840e-01, 2.010382802709447525e-01, 2.008638946015517401e-01, 4.117157850599173323e-03, 6.913761118346104517e-01, 7.414605472387014728e-01, 4.035416390373285367e-01, 5.537632757580808196e-01, 4.576686565060500422e-02, 3.583799768853321854e-01, 9.011367869006648990e-01, 9.242164718645660137e-01, 8.655810475617288224e-01, 6.029625886351646091e-01, 2.917850668431211103e-01, 4.709463749681713773e-01, 7.682589568538130687e-01, 7.569152448389989685e-01, 1.413017752683653760e-01, 7.922908043102384612e-01, 8.393465003142503988e-01, 2.916147641392783929e-01, 9.815360035460611865e-01, 7.726469416047353489e-01, 6.894599827484357846e-01, 2.432362838594725463e-01, 2.031521311693725573e-01, 4.322831366852785129e-01, 2.786642986974262326e-02, 4.438439957865965013e-01, 5.130479254452279259e-01, 9.666550300686067576e-01, 5.687233175531252183e-01, 4.345900041118719859e-01, 8.858563156950971518e-01, 7.397524614683176347e-01, 7.430051343818587783e-01, 5.467736278194903488e-01, 6.221639222159076610e-01, 3.427793187999002567e-01, 8.235316104102723411e-01, 6.195721907486370084e-01, 8.107368273749152032e-02, 1.721036321377042433e-01, 9.606025177456588571e-01, 6.914257172923461425e-01, 8.444225509235547822e-01, 1.661651412210301826e-01, 5.540581991086885871e-01, 4.926129434416592900e-02, 7.429359836952036389e-01, 3.790451863683448885e-01, 4.810904459849950632e-01, 2.425376651618068591e-01, 8.392788194668078239e-01, 9.424871059676590557e-01, 2.144194267408314758e-01, 8.911270591844555611e-01, 5.924551613189221744e-01, 3.223569018072882653e-01, 6.673718899802836280e-01, 5.802966528820515668e-01, 4.221939511612008977e-01, 2.215483117337313512e-01, 6.124199116306122681e-01, 1.366687917714586309e-01, 2.852313962888366472e-01, 6.548020154579535790e-01, 7.663054683711462145e-01, 2.723213530023568252e-01, 7.306642965188717698e-01, 5.878647349306125036e-02, 4.115325582225680123e-01, 8.764886175235043764e-01, 7.466774181207765926e-01, 3.178185540087197225e-01, 3.560765704413890956e-03, 3.863752073871014048e-01, 8.439968701106486115e-01, 1.769729135073262738e-01, 5.455720070296917745e-01, 2.464525330202355924e-01, 7.869388437622396593e-01, 5.643153937687024335e-01, 1.733615571631930141e-01, 6.021369704181758070e-02, 1.132866986595983030e-03, 1.770586188063136834e-01, 9.242699388550809081e-01, 1.664307756230683222e-01, 7.540244244899835246e-01, 2.617074544465411989e-01, 3.078710566703303231e-01, 2.749364694264651576e-01, 2.683013808173493886e-01, 3.255554091436658193e-01, 6.324948082722936515e-01, 8.720087993958984818e-01, 9.625344620059160805e-01, 9.406331036332707951e-01, 1.808792108652059472e-01, 1.575320864332908632e-01, 4.776809773023626970e-01, 1.726847484936121918e-02, 6.955866118037663526e-01, 6.339584980302358508e-01, 6.511030970194648937e-01, 8.343170892336214672e-01, 6.302914871822079546e-01, 2.529092974746531275e-01, 3.329040865916561009e-01, 6.126068299885868429e-01, 2.778231992392149810e-02, 3.015804997498000017e-01, 1.527166898466116030e-02, 7.860866107686956816e-01, 2.684834876144251981e-01, 2.751999564996971959e-01, 2.107321687614069627e-01, 8.521736157085182395e-01, 4.778502585172178518e-01, 6.740717510168896531e-01, 5.375553731446580663e-01, 7.792195203789678004e-01, 6.911165614802655677e-01, 3.889314600163577551e-01, 9.602842855643812792e-01, 2.232385976009247652e-01, 2.639898958953588726e-01, 2.492074621445281857e-01, 5.955765906021199818e-01, 4.591583130611008867e-01, 8.817677175279448054e-01, 2.673292025321611851e-02, 1.559154143493208522e-01, 6.106733615658592740e-01, 6.594394126945725132e-01, 6.425680445091022652e-02, 5.622407955074557595e-01, 8.311879235279422407e-01, 1.710677412804529618e-01, 5.836923938074040780e-02, 3.272346065577693697e-01, 6.535819490556109557e-01, 4.714540674958843380e-02, 1.898501483802266521e-01, 7.355361392195747250e-01, 8.930917014257548914e-01, 1.495974354408663443e-01, 6.794439093591121415e-01, 8.726033220521031142e-01, 7.340791346197788059e-01, 7.336286777241737278e-01, 5.297914478924877768e-01, 8.479567026964262011e-01, 9.589476359340736167e-01, 1.724353869572778364e-02, 1.959669094992890492e-01, 2.034836818884119825e-01, 1.599708831619697513e-01, 1.694035174249974018e-01, 5.143308999294905481e-01, 5.648850517328208864e-01, 1.269505126678169560e-01, 6.815097228067922008e-02, 2.165543222337927287e-01, 5.100459493451763304e-01, 4.502117614869052264e-01, 8.417583078327978141e-01, 3.169558811605354687e-01, 3.031519441839535256e-01, 5.851981642718923071e-01, 4.417097896099850818e-01, 5.341915666473789903e-01, 6.105666915897278030e-02, 1.722204925420846855e-01, 7.284064757054695693e-01, 9.950324936639545204e-01, 4.363661651732426150e-01, 9.593763614689130304e-01, 6.703468068806076596e-01, 4.815274784549216647e-01, 6.358543314518430578e-02, 6.863532211559740526e-02, 3.050526454197837189e-01, 2.848739966034881110e-01, 2.753130209320934774e-01, 2.276555236943311189e-01, 4.427185542228324056e-01, 1.404503688420531970e-01, 5.222474022048089193e-01, 1.362691932238570547e-01, 9.132267519461619854e-01, 1.937720338775408002e-01, 6.521448381648958792e-01, 6.216104559138343477e-01, 7.452544383600364641e-01, 8.919723131128077798e-01, 3.628028123781634751e-01, 9.770112192637488979e-01, 5.193429649104451817e-01, 3.288266732629657185e-01, 6.137668413773063048e-01, 7.930791761021337427e-01, 7.507692703023455261e-01, 6.568976472398123656e-01, 6.790638417401422267e-01, 7.062309045466745872e-01, 8.740528590277375498e-01, 6.296447070889922282e-01, 8.233473069499669394e-01, 2.006029482050175061e-01, 4.193880200015234760e-01, 8.093064861310281799e-01, 9.574757134547373649e-01, 6.247509275755376290e-01, 7.719541124981854630e-01, 6.863677702221075982e-01, 9.243338581843712348e-03, 9.790899125360041921e-01, 1.087585952640276188e-01, 6.465978496086009775e-02, 8.504833620917385817e-01, 8.859574299730887947e-02, 2.291455373546823215e-01, 5.248607508832335844e-01, 6.384810007248774566e-01, 8.087136023249750227e-01, 5.393720617197185208e-01, 4.764360982966803770e-01, 8.439559787778615485e-01, 8.432242767876644285e-01, 7.252321301082692573e-01, 7.329815803655644058e-02, 5.443616522317797912e-01, 7.939175947951234713e-01, 6.028364443027807162e-01, 3.612376616289748599e-01, 8.929586630498914657e-02, 8.815727164476091504e-01, 3.273229912658965346e-01, 5.974197564677153904e-01, 7.372663252951627832e-01, 3.414485726175791047e-01, 3.338711426992475029e-01, 5.815400653652242902e-01, 7.687218517682535834e-01, 7.278703452881130076e-01, 7.406871222725001092e-01, 5.678654632432018207e-02, 4.997974219595133910e-02, 5.256743518863318254e-01, 7.213506744547072413e-01, 7.693367935216450793e-01, 7.794361118583116310e-01, 7.757918356544700744e-01, 3.490353451945108487e-01, 4.302951739443315882e-01, 5.888871658504035711e-01, 5.309686117343179745e-01, 9.678068388430141056e-01, 8.668190075014348128e-01, 8.623694283293610596e-02, 3.878789786425546615e-01, 1.714276159301478253e-01, 2.020569034107981832e-01, 2.130788746258258648e-01, 6.367496677341866196e-01, 2.601600129002092920e-01, 1.328183056258717444e-02, 4.785534105720973819e-01, 1.059097648738125397e-01, 6.453833869907917853e-01, 5.057873619612898164e-01, 2.642376980055467436e-02, 8.540417458144887730e-01, 3.469836433812700793e-01, 3.937547662357347433e-01, 6.828644336966843698e-01, 5.280692245338934887e-01, 3.723809907645789785e-01, 5.198259261824593747e-01, 6.935622104866036031e-01, 2.271823610812712391e-01, 5.620649700710969032e-01, 5.735739698876770598e-01, 2.600342836346379305e-01, 6.916691526251173006e-01, 9.564668645761248422e-01, 4.824418346859418172e-01, 5.495951413413904252e-01, 6.597428762516270861e-01, 2.925523514254644436e-02, 3.604554383072933743e-01, 1.390186289896722938e-01, 7.768914505540337467e-01, 3.102215914367459360e-01, 3.485806344644941379e-02, 4.148462032715893311e-01, 6.745958658131137042e-01, 6.570457645559626414e-01, 5.832231883889235080e-01, 1.234025445425280254e-01, 6.914158709007875436e-02, 2.605119707896991210e-01, 3.561707937102302490e-01, 6.266887607022758599e-01, 1.627867186567144020e-01, 8.666377722886621227e-01, 2.382262232474862129e-01, 9.279660241991990466e-01, 6.484517988595948079e-01, 1.949608937888969995e-01, 7.065799098227825148e-01, 6.167905099234066713e-01, 9.853782849349399520e-01, 1.701752392289020144e-01, 7.994967248539722737e-01, 5.639527436460176762e-02, 8.036080767783801981e-01, 1.329468073678915369e-02, 3.410313219219417435e-01, 3.974894400250675863e-01, 3.856469699462471423e-01, 5.763952970594005132e-01, 6.395961827749931938e-01, 3.594278237088068262e-01, 2.021386752819407662e-01, 8.526811355406453963e-01, 1.304542971573761090e-01, 1.638292208985973331e-01, 7.138156042665110279e-01, 8.924219375197864901e-01, 9.975868854433307398e-01, 8.441833414171332484e-01, 7.443449051880716150e-01, 2.788541909179491629e-01, 9.840104581712952880e-01, 5.936511750931561249e-01, 1.009234963552549519e-01, 3.616352695887544155e-01, 5.035906058943773189e-01, 2.703495045783919082e-01, 5.564853955720563405e-01, 8.894365230644305509e-01, 6.955668438760660433e-01, 1.920293048870914399e-01, 7.674192665426630144e-01, 2.500617556351020232e-01, 3.225804273060433602e-01, 1.094417076288654728e-01, 4.771152580922174979e-01, 8.760597002889527474e-01, 1.726241945772329436e-02, 8.822970827307561326e-01, 3.280030130077749018e-01, 6.629337081434930612e-01, 6.658978436729655614e-01, 6.556874488559699676e-01, 5.406969079215609986e-01, 5.864234379565570060e-02, 1.361286157136182284e-01, 6.757865180698081620e-01, 2.270066701086930760e-01, 6.135842314132575748e-01, 2.146283721036283398e-01, 5.049318509047118209e-01, 6.559904498517205029e-01, 5.536255679301484989e-01, 8.268592469934558098e-01, 7.468300375858965001e-01, 7.603633869884398599e-01, 9.856507596931910475e-01, 3.196591097862100939e-01, 5.130400401635184515e-01, 3.941000980286767374e-01, 7.567928133792070078e-01, 5.825515886901569962e-01, 4.757774156673099109e-01, 3.621048005765116224e-03, 1.744716701915798307e-01, 2.586183160697138033e-03, 2.719599495879115869e-01, 7.599813717460713880e-01, 2.531984521678901090e-01, 4.974805711812115699e-02, 8.876478569654349116e-01, 6.041208400893200992e-01, 3.460810713327397981e-01, 2.085009481379542506e-01, 7.882247648044768962e-01, 8.457530677584587098e-01, 2.139648808279772385e-01, 9.123251376254871703e-01, 3.068895724012206117e-01, 6.292995300558905658e-01, 2.649635121446573538e-01, 5.402380177340656564e-01, 6.658551482745717065e-01, 7.835357681075652558e-02, 8.088696758484421601e-01, 6.125430333917621928e-01, 6.261660680303230420e-01, 9.951005557803848101e-01, 3.126328804401122263e-01, 8.104686217266129367e-01, 9.750737469329496809e-01, 2.674669856991668815e-01, 1.215514079170856576e-01, 6.310904396186538534e-01, 3.898466272535057175e-01, 6.499536596388362508e-02, 8.733164642261801447e-01, 4.980796952769389607e-01, 6.170745778846897789e-02, 6.007467183985601977e-01, 9.117498532853166582e-01, 3.520317993485452823e-01, 1.331099727309476011e-01, 2.748812595582313389e-01, 8.024614475932839719e-01, 7.934588548344232439e-01, 5.301682847561808298e-01, 7.352571189158269016e-01, 4.271984133790559524e-01, 9.150985726333901171e-01, 2.849929824687068569e-01, 2.941014888320084841e-01, 8.387229103376936390e-01, 5.778831732205322869e-01, 3.195407718136029085e-01, 3.145765838901669609e-01, 7.820146255301907434e-01, 3.098944274744863669e-01, 3.672824196305048416e-01, 8.678695733214590591e-02, 6.893061638378462641e-01, 3.524796841301840455e-01, 6.704125984017598183e-01, 1.058728999698114043e-01, 6.927867005006287382e-01, 4.838044564107195078e-01, 6.642869513869563702e-01, 6.279350752993182461e-01, 3.533961680526641058e-01, 2.151653403363447958e-01, 3.250598637173807703e-01, 9.168156410445079674e-01, 7.923120626468607153e-01, 4.780173794115289421e-01, 4.134918963229494149e-01, 2.282477109850111485e-01, 5.648315604884257546e-01, 8.918342814277868680e-01, 5.433766397494824707e-01, 7.890877247299012964e-01, 9.426265563984216334e-01, 7.007966786673133219e-01, 4.062550082974402121e-01, 1.626641826905213806e-01, 3.788870743787045581e-01, 9.524910786398604889e-01, 9.312066534245301286e-01, 9.505780239480211558e-01, 9.216889169286724970e-01, 4.012030099355685664e-01, 4.093487607020362407e-01, 7.514954231972804655e-01, 6.970972656801524003e-01, 6.341478401500125761e-01, 1.489567662648498270e-01, 2.995827560165924552e-01, 7.893627862834259323e-01, 7.848604594867490680e-02, 5.125342951782947409e-01, 2.095572546743844355e-01, 6.979150571429185157e-02, 9.569629178755987287e-01, 9.617936425009557810e-01, 6.535526074912099137e-01, 6.762736548268477588e-01, 4.820358518969660722e-01, 1.033010554749434901e-01, 9.879995183968214301e-01, 1.667232889730064505e-01, 1.014597451628979352e-01, 1.348958419197273662e-01, 1.543956821309957206e-01, 7.162081925634253832e-01, 5.629620284718416245e-01, 2.886778933819776904e-01, 5.659055709351493713e-01, 1.415699701995713211e-01, 5.145972175475489463e-01, 3.246681517940690487e-01, 1.777907311229689480e-01, 9.449075774892367052e-01, 5.205457019856224443e-01, 7.618657795126451693e-02, 8.927966112078078442e-02, 1.759470669421800693e-01, 7.249339788184238076e-01, 4.422514494423706033e-01, 2.550951505654576179e-01, 4.202445532289986185e-02, 1.218602729609205709e-01, 5.126889436938874001e-01, 1.934877633237344630e-01, 6.919236379558264538e-01, 2.000583797296007216e-01, 3.435360453121897792e-03, 4.289926680579974061e-01, 8.141017539621137056e-01, 8.776641226300085918e-01, 3.503425810919300609e-01, 9.218604143569558707e-01, 8.112207653223444392e-01, 4.911953037533349220e-01, 2.793593708606283976e-01, 4.232715904204922830e-01, 9.706219336238821604e-01, 7.017805571146621402e-01, 7.073706286023375700e-01, 1.517608757920946572e-01, 2.320761129569208492e-01, 4.581205376807158114e-01, 1.964381826618601945e-01, 8.246532114127171909e-01, 9.481992880398342205e-01, 9.491823787198988560e-01, 1.987301066274303751e-01, 6.177033528798531181e-01, 7.764101125119746705e-01, 3.012004333588393003e-03, 4.981170751711951339e-01, 6.124555378524022542e-01, 3.195849512888405131e-01, 4.684531038909163225e-01, 8.750906953852097825e-01, 7.971686352279265808e-01, 4.666140954884646919e-02, 4.008334787235356411e-01, 6.760474561681228955e-01, 4.616642637060462406e-01, 8.336722023153886330e-01, 3.822844673763218792e-01, 5.149410975407620050e-01, 3.679258767952604536e-01, 5.094770480833458182e-01, 1.807200260766047284e-01, 7.058474762136163205e-01, 6.425644994615945516e-01, 9.707091978480107963e-01, 8.402484812583338458e-01, 6.510901258392965962e-01, 8.256719052319912988e-01, 4.517775465217293007e-01, 9.009793557239409445e-03, 3.405782298394929297e-01, 3.784856802902762385e-01, 6.677583601686654102e-01, 1.568194132477564520e-02, 8.746482436335832888e-01, 1.594520061741734329e-01, 5.734579852586108029e-01, 7.226879291619383583e-01, 9.323407089014825733e-01, 6.907368010917517287e-01, 7.236019828045312519e-01, 4.350816454619553797e-01, 7.153773483246592124e-02, 8.520612278716438448e-01, 9.708412222595794727e-01, 6.854198260448667313e-01, 9.780986564881154477e-01, 1.810530061903847243e-01, 6.173947190916265898e-02, 5.981243049623831132e-01, 3.109454173661367338e-01, 5.023258129900534663e-02, 5.009707558607895406e-01, 4.437403660453269061e-01, 5.478683986232196768e-02, 2.518303330673641871e-01, 1.547327499168406062e-01, 5.323901249752068798e-01, 4.963490004785243714e-01, 6.244533394351150513e-01, 4.226836449333497558e-01, 2.924618863376574063e-01, 2.065477319463437378e-01, 3.981595302235360623e-01, 1.537164812081102394e-01, 1.891868961331052146e-01, 2.888184102749742355e-01, 8.823230716607793900e-01, 6.528520566080714405e-01, 1.794960741078533914e-02, 3.320413877682611981e-01, 8.082367060759647337e-03, 4.891875344130833247e-01, 4.407231436224837706e-01, 7.096988947057885078e-01, 1.013679750852272410e-01, 5.986441458467037929e-02, 6.028903646634459212e-01, 3.282610807403009145e-01, 8.830859325652444802e-01, 3.114876142447552398e-01, 4.404430169163098263e-02, 4.786978162074072563e-01, 5.886266322578211918e-01, 2.279773216812433223e-01, 3.973881188187831648e-01, 5.836641622771053806e-01, 3.834988378245284268e-01, 9.430734734064412372e-02, 5.647336005026524219e-01, 8.102902947997779881e-01, 1.128907054236506641e-01, 7.956051981099998560e-01, 3.051749503427965693e-01, 1.241355577101200952e-01, 9.748791947363219523e-02, 2.687904420051736576e-01, 4.065768116026841766e-02, 5.421253771504399577e-01, 6.208941833788169662e-01, 3.320304896641932402e-01, 6.992961346041627335e-01, 9.257398106211712774e-01, 9.159097642020324059e-01, 4.171186924953380615e-01, 9.843610645477065546e-01, 2.182155119348010430e-01, 2.445924197204694117e-01, 2.049176707143051945e-01, 1.259483879828357800e-01, 9.285089827103647497e-01, 9.807430246801074336e-01, 1.734319520722542862e-01, 2.200298056708280825e-01, 6.484944211687867499e-01, 6.217488735658573962e-01, 5.031658064754139792e-01, 9.685235468130098946e-01, 5.068209912038672549e-01, 1.025641918637117955e-01, 6.307117016863287295e-01, 1.584643919530376310e-01, 6.155272527947205363e-01, 7.646059537185434518e-01, 6.975061862521035883e-01, 2.811960650994256294e-01, 6.167396056889004052e-01, 1.407958736723087523e-01, 9.824627866552724242e-01, 7.006759282818915135e-01, 3.340588400937610780e-01, 6.980347687716901284e-01, 8.210359141148415585e-01, 8.654994299498834642e-02, 1.813736297615008153e-01, 5.494295878644896852e-02, 3.848541780806962187e-01, 6.913444467691538808e-02, 7.662735270832055079e-01, 8.457179411690632920e-01, 2.022019101197440882e-01, 7.846775368433725473e-02, 6.083402297528767155e-01, 9.193873934262324354e-01, 3.030990066833890717e-01, 7.702771521089887274e-01, 7.836101790608952511e-01, 6.485752596703232564e-01, 6.532914870699080279e-01, 1.494582399908316872e-01, 7.468845646180719555e-01, 9.359900811095416273e-01, 4.676532155057660511e-01, 4.771719707391353787e-02, 3.974938741895889249e-01, 5.955062837388560570e-01, 1.387098087279159675e-01, 1.521467635063337943e-03, 5.742123337553153295e-01, 7.673717425791447555e-01, 8.189885297408083797e-01, 8.660984084451303078e-01, 8.617471859449015170e-01, 6.871022420318462220e-01, 3.030948379163163064e-01, 9.267560839532897887e-01, 2.352680122882798708e-01, 8.360043280362447482e-02, 8.195391191384855389e-01, 3.417423164332032970e-01, 3.569492461482051127e-01, 4.443719308174609584e-02, 3.652991946913255461e-01, 1.732850091372024615e-01, 7.480167947066389544e-01, 7.501926827123071018e-01, 3.368072836963222905e-01, 2.643832565301318382e-01, 8.806562453908099997e-01, 3.344896902585588472e-01, 7.127929167891396134e-02, 6.454947389507210698e-01, 2.986775422389553736e-02, 9.346607057070517310e-01, 5.873124463016704544e-01, 4.765670803360881336e-01, 7.680389906985251036e-01, 4.203359350261035576e-01, 1.324628082279234176e-01, 9.509059406112445600e-01, 3.736752394385439158e-01, 5.539986120757004473e-01, 7.882345765855376385e-01, 8.121589433694786919e-02, 8.167099491390419352e-01, 9.022217868104955851e-01, 6.857829847709500104e-01, 7.429137842726832863e-01, 5.461453735443692059e-01, 5.255169752956578844e-01, 7.055528579928224131e-01, 2.606634025336700966e-01, 9.578707469997304047e-01, 4.588650436583925352e-01, 8.521542292964690013e-01, 3.701864784449568346e-01, 1.452183070634256376e-02, 4.215283483703157197e-01, 3.346656209473076182e-01, 3.832240542868009525e-01, 9.760458089663479608e-01, 5.178669803604825095e-01, 1.637122641297364678e-01, 1.203393442826323073e-01, 2.929721814182150164e-01, 5.957504339621916972e-02, 5.198888360288345112e-01, 3.911316974420846471e-01, 6.168719922848903137e-01, 6.236960614441001693e-01, 4.933746583277928144e-01, 6.864583411835073479e-01, 3.973831505242048645e-01, 9.027640520596870166e-01, 2.050485422805569391e-01, 4.391248437629721724e-01, 1.699784816797768605e-01, 8.147140101138425905e-01, 7.169332910955191762e-01, 5.058605646490726970e-01, 8.623741911002928973e-01, 6.404573172438787765e-01, 9.322110961664208384e-01, 7.422293192513713667e-01, 3.245816550833153374e-02, 4.918830472569311052e-01, 6.259000907488586618e-01, 7.143527743256414819e-01, 5.670206269378129660e-01, 8.251633135614225845e-01, 4.931310906917434900e-01, 3.944162446655093412e-01, 2.458695431784321817e-01, 4.058537240203073937e-01, 1.334185521404075703e-01, 5.633821752959413676e-01, 8.081494782651034159e-01, 3.202254860223237021e-01, 7.606999409360152287e-01, 8.275915714340509322e-01, 7.066018924467790674e-01, 2.861930949582687789e-01, 1.717424308540926592e-01, 1.809780634196200000e-01, 6.138428506969890730e-01, 9.675759895221457407e-01, 4.668081381724976664e-01, 1.186129754639982797e-01, 9.829948972484783831e-02, 2.511550066718094554e-01, 8.238835996337442458e-01, 6.668712857206935407e-01, 8.997571360320125722e-01, 9.546743767396410618e-01, 7.952204990610450830e-01, 2.699205813018648592e-01, 7.802346399180134506e-01, 1.676553896202207516e-01, 1.620236820348354700e-01, 2.016271874156760069e-01, 5.280922353812519399e-01, 7.094299860932439250e-01, 6.122861104430351448e-02, 4.880320323658656201e-01, 3.677831430502166987e-01, 2.352532809443644013e-01, 8.069445080037719320e-01, 8.585495564077757491e-01, 4.406779462059423613e-01, 1.296639696406561570e-01, 4.903899352459780703e-01, 3.342765732663080525e-01, 1.331776667172812345e-01, 5.341366973256006512e-01, 1.530134934425070592e-01, 8.429159132115580100e-01, 2.566739637101348934e-02, 1.031273513305399209e-01, 4.575197943442473325e-01, 7.995663420092135043e-01, 5.574820616573165077e-01, 2.969066607020348081e-01, 4.569561337062345019e-01, 8.962387154899499331e-01, 9.734215704807571701e-01, 8.886492255070793655e-01, 9.027277091609496873e-01, 6.886797121479483197e-01, 7.373402234814973033e-01, 6.185086971970358283e-01, 2.980487585756461666e-01, 7.327539849246603731e-01, 7.255816366820118102e-01, 9.056467469550012750e-02, 5.268178466120475578e-01, 6.864528678787027438e-01, 1.066338048200222433e-01, 5.846921724964473932e-02, 4.182661900835287772e-01, 6.889461398739243903e-01, 6.268992841670038008e-01, 9.420832622052217609e-01, 3.563511386711644136e-01, 4.775687329809342324e-02, 2.968857472385806329e-01, 4.581576075619525623e-01, 4.412171148358556283e-01, 4.562821318250793734e-01, 6.228682466811220619e-01, 8.214860969276052138e-01, 5.570506857661896571e-01, 2.418151757057589168e-01, 6.077805859991263215e-01, 4.104818242559085673e-01, 5.431990252384767404e-01, 9.452060537050976929e-01, 6.793568852401823399e-01, 7.034290615247678069e-01, 3.424858363508533066e-02, 8.400971616149714993e-01, 1.935363724511835262e-02, 4.546807757539352290e-01, 9.739694342487627277e-02, 9.389430523559479935e-01, 6.759491788306448701e-01, 1.321488154038601148e-01, 5.357266145674888236e-01, 8.056065617954697444e-01, 8.372568654689290998e-03, 9.847203588771701321e-01, 7.862621467382467644e-02, 7.376773020001424659e-03, 2.094054755091633857e-01, 3.744324784497338188e-01, 2.351832738335210560e-01, 9.367491098189947296e-01, 9.673532155664688048e-02, 5.224496854301847737e-01, 2.189863255964643041e-01, 4.838752231087234956e-01, 3.758240338561690264e-01, 2.917105945337304385e-01, 2.359951379740001798e-01, 3.368144124009852386e-02, 3.372434075608926607e-02, 4.922184528132030890e-01, 2.896421249636350059e-01, 9.729816403643904987e-01, 5.180888762077676679e-01, 4.086446638885680716e-01, 7.692013974080122996e-01, 8.709185878074332532e-02, 7.038108292958767942e-01, 2.293657745612603938e-01, 5.387302738022531345e-01, 3.305693049343811363e-01, 7.928799817391067872e-01, 5.116433450695651031e-01, 2.917151916695310820e-01, 6.217496093913280619e-01, 7.544001713295347411e-01, 9.613979864579541568e-01, 7.562291630118561647e-02, 7.909866083907414192e-01, 6.214311633450740890e-01, 7.204264072161588039e-01, 9.034417960222242971e-01, 2.670761306157173887e-01, 5.787147644853000150e-01, 2.029570000228640148e-01, 8.012927982172560748e-01, 5.043841983953027963e-01, 9.632070312035995174e-01, 6.308810506322383160e-01, 6.249778857654681996e-01, 5.191380021299766279e-01, 8.121242975806449715e-01, 5.205180220939088498e-01, 8.398706159066963162e-01, 6.136329554715459489e-01, 4.012473584495052092e-01, 6.663383534840614519e-01, 8.637436138120234697e-01, 8.761605402001374499e-01, 8.170409048473786795e-01, 1.679397458485651917e-01, 9.901953800730106670e-01, 3.370228742748136996e-01, 4.619125066552612902e-01, 3.528302010627992757e-02, 2.118426278754064473e-01, 3.648399801932190600e-01, 9.596730523824017478e-01, 6.234467886472152554e-01, 7.926405834138190443e-01, 9.694041689078498614e-01, 2.790248598714988315e-01, 9.084581831213565106e-01, 4.935055871761609980e-01, 9.634165279642332713e-01, 5.333051244210932351e-01, 1.636948317750435977e-01, 7.601371145299775645e-01, 6.456551329848987386e-01, 6.645179734174289088e-01, 1.937547369850583512e-01, 4.533395558582741236e-01, 4.746991014462859093e-01, 7.846837163181237251e-01, 5.737946675019710563e-01, 4.863456659381455993e-01, 9.500318598690383753e-01, 8.222516854947949094e-02, 5.005327777163808278e-01, 5.617166333042207249e-01, 4.602433375004888472e-01, 9.176399632701069953e-01, 8.044304568012911050e-01, 5.980280814769146636e-01, 8.147806774705055322e-01, 7.926186819117452265e-01, 5.787166521195195035e-01, 8.955360290512628385e-01, 4.941869127914542692e-01, 1.900341094091311800e-01, 2.043806380871100170e-01, 6.176893089891487554e-01, 9.788708466732766178e-01, 5.599012379119384653e-01, 1.125217833190022693e-01, 2.789413967460575572e-01, 7.535196286904375373e-01, 9.767914249612720257e-01, 7.476708158978034868e-01, 7.474896900370993080e-01, 9.468888047248240625e-01, 6.979026268011609968e-01, 7.875254741718648033e-01, 6.490257137512962515e-01, 1.776135422138595543e-01, 1.978216796719196313e-01, 5.737655431558241759e-01, 9.731173817683933525e-01, 5.382771355464210927e-01, 6.195859778631912507e-01, 7.786936238937723909e-01, 8.591695093747050427e-01, 3.585842624720193550e-01, 2.709716378143615656e-01, 1.402166319981726916e-01, 5.928910189634540862e-01, 1.005204394685026842e-01, 4.472661108024281740e-01, 7.783800333187745890e-01, 6.192069635557295726e-01, 4.623194075421733218e-01, 5.460157195977348721e-01, 6.258000234779838022e-01, 6.579532659345430634e-01, 1.636728471097569082e-01, 6.752586141408718490e-01, 6.117783350118498609e-01, 5.594237618278918855e-01, 6.725380947592675129e-01, 6.310184368037647928e-01, 5.500232829055426986e-01, 6.969550238850461543e-01, 3.007880522371652599e-01, 7.097336902216944132e-01, 7.815860267948535611e-01, 9.685960224109095851e-01, 2.515514238501732613e-01, 4.000477244616143513e-01, 9.326543173284105315e-01, 2.699179761864845539e-01, 2.953785711826998894e-01, 6.763053858144572050e-01, 3.658355701310294639e-01, 1.428125791633671759e-01, 6.107771831040156307e-01, 5.538038692701704457e-01, 4.642490721562595457e-01, 8.552488725416602655e-01, 4.752403093091443070e-02, 1.694277610901882836e-01, 8.844385805994264826e-01, 4.828037049162630101e-01, 1.791592093105810746e-01, 7.020693813404917938e-01, 6.427166029238651213e-01, 3.495199114976936250e-01, 7.438796669371290360e-01, 6.136882576458311256e-01, 3.201506261165160128e-01, 1.804121773202115031e-01, 6.851024535669315574e-01, 7.903257033653359187e-01, 6.522231619311202877e-01, 6.495362632992065510e-01, 5.336842092495637235e-01, 6.324195550679090339e-01, 8.653218944308701532e-01, 8.560769527773522958e-01, 9.950405109247500990e-01, 7.683227956414122595e-01, 8.093217783611668104e-01, 1.383257112180203974e-01, 2.630394711914395001e-01, 1.701575921045896944e-01, 3.090640774136217406e-01, 6.522416245824526060e-01, 1.518130385686425887e-01, 7.498080558288114372e-02, 4.116846965828174776e-01, 8.938033646245278074e-01, 3.230937072283935896e-01, 8.404853753296652741e-01, 7.803100150880685204e-01, 2.133371746912871847e-01, 2.353266806216383067e-01, 5.757615939898576007e-01, 1.905317137715846765e-01, 5.017048691007482963e-01, 2.779403443268369522e-01, 6.091468109267818010e-01, 7.647095180819305504e-01, 5.341299555581819139e-03, 2.661939338628022678e-01, 6.471232756199437608e-01, 1.648478456946560755e-01, 4.589555043160409853e-01, 9.624381016162815161e-01, 3.159017576111243231e-01, 5.062624451200844478e-01, 9.182504671746808400e-01, 7.170419932621546755e-01, 9.073685294900946108e-01, 1.810306058586708122e-01, 4.242672632027841284e-01, 5.071765660078317861e-01, 5.698247053435533810e-02, 3.156217533267442477e-01, 7.465169400394222610e-01, 3.984131598168500626e-02, 7.493868488846211484e-01, 6.806193341325101898e-01, 4.956557214552768931e-02, 1.420960850468149794e-01, 4.626395273152544285e-01, 3.013874776636701891e-01, 3.229545313505629567e-01, 4.634278832851680408e-01, 8.621582418549539328e-01, 8.412681928308241019e-01, 4.497359278132914695e-01, 8.283653998733924162e-01, 5.284666901308199272e-01, 3.522183047453941729e-01, 3.688988141922432407e-01, 3.007238216285715859e-01, 9.449591813634902193e-01, 3.627471843732128498e-01, 4.419283683147258723e-01, 4.125787132620063469e-01, 9.482646215677391632e-01, 2.651984698527436457e-01, 4.527742474264953576e-01, 9.500030362643866466e-01, 8.390193506722027905e-01, 5.391787436284595225e-01, 4.765495001612539139e-01, 7.300848310826195675e-01, 2.794404023817282368e-01, 2.266096221187811344e-01, 7.478026964749643346e-01, 5.790953647069928545e-01, 5.892267962815508353e-01, 6.132115076535088471e-01, 7.364485896996844083e-01, 1.528845729635911477e-01, 9.280871377602030181e-01, 1.050904127195523702e-01, 9.476942839608638869e-02, 4.492373671759597453e-01, 2.424147890779421513e-02, 4.092404045735802409e-01, 7.018303702303202440e-01, 3.079046244119046372e-02, 8.211446812459821665e-01, 5.252924314256451899e-01, 9.674949409589586602e-02, 6.532450050665744579e-02, 3.065976237530398385e-01, 7.813531964811336605e-01, 7.734003802686720830e-01, 2.533758296404489130e-01, 1.770827743314453140e-01, 1.796756077662541584e-01, 3.161572176005748025e-01, 5.482807585718914023e-01, 7.128889401119999913e-01, 9.346207238432153730e-01, 1.217259388465313646e-01, 4.375449219538626311e-01, 2.413849735725569767e-01, 5.286694187610095907e-01, 2.864942714332496809e-02, 3.784180661643281041e-01, 4.126414290398925933e-01, 6.894847705524060899e-01, 3.704784405859755103e-01, 7.616306105975773066e-01, 2.892010573673968188e-01, 2.738358609039980712e-02, 5.183912072756694522e-01, 7.743535353281613132e-01, 3.089726023721538484e-01, 8.062918729615977664e-01, 5.018099065843453221e-01, 9.463224906179800167e-01, 3.478864299367295243e-01, 9.911467971924382558e-01, 2.000741826025299527e-02, 8.179818605440305479e-01, 9.632051551431060066e-01, 4.287248989630504381e-01, 9.030029327856937682e-01, 3.519615413865274656e-01, 4.352343242716358307e-01, 5.754273284882579498e-01, 9.166328214449055434e-01, 9.638675188503522673e-01, 5.030280901184960296e-01, 1.452936941940187465e-01, 5.936568755320776880e-01, 1.186704315010670002e-01, 6.951742990774061326e-01, 9.371194413034177328e-01, 6.062829050252172003e-01, 4.865742665861783056e-02, 5.662785763028281849e-01, 3.683036237599870422e-01, 7.833063747422636114e-01, 4.848975573363444314e-01, 9.707999109645858160e-02, 7.881668851568423007e-01, 7.873472249697621717e-01, 3.872857519888918132e-01, 4.362506076967270219e-01, 5.213621354744498726e-01, 8.946854551163585523e-01, 9.496181508268789484e-01, 1.241636011194156980e-01, 3.608447517094798274e-01, 4.066386321101330553e-02, 8.820929335537153193e-01, 5.769118410480836845e-01, 4.261192776402576432e-01, 3.185908594752379086e-01, 1.564016002147512047e-02, 2.450264623875421932e-01, 4.492673186929299622e-01, 8.159043909258960614e-01, 4.953301659908337373e-01, 8.959200919256815610e-01, 1.093206986479906828e-01, 6.924518856202125372e-01, 5.469245927087152959e-01, 3.257646691796990956e-01, 2.521390341908311128e-01, 3.082840118340312574e-01, 4.304250596408842888e-01, 3.072702558514018856e-01, 5.944697125037551322e-01, 8.915740440743185058e-01, 4.689343351995928777e-01, 6.452412267837516202e-01, 5.580614260911170854e-01, 4.979043645214989433e-02, 8.000190907293299736e-01, 6.045870325624824737e-01, 4.254055465534228309e-01, 7.653977421463268316e-01, 6.248685757055011392e-01, 2.424530279755430834e-04, 1.027232037950679550e-01, 5.258780900903684552e-01, 4.328824331956925842e-01, 7.851715820024980363e-01, 3.365338241456861113e-01, 3.974751326797025808e-01, 4.763954691266266139e-01, 6.405781499797719158e-01, 8.962129188736734919e-01, 8.792761548393157600e-01, 1.099862251180201422e-01, 4.088247759999577013e-01, 5.815202581839875595e-01, 3.660221079080032136e-01, 5.865156221605482001e-01, 1.054877963723929168e-01, 5.164125839038410382e-01, 7.584888740316381682e-03, 3.548614350792904659e-01, 1.464860102784237283e-01, 4.793542445580043498e-01, 8.964257775699896458e-02, 2.097552102209998548e-01, 1.284784511521592509e-01, 9.850968610879398124e-01, 2.662370566674432393e-01, 6.794456992577035948e-01, 9.407343307575668501e-01, 9.392826487640740241e-03, 3.046218632476368482e-01, 5.296576553880201210e-01, 3.017562967225493886e-01, 4.404856674880880951e-01, 5.491775040527209217e-01, 6.222335261498296299e-01, 2.975509743498732651e-01, 4.772530591636796327e-02, 8.107901290017258122e-02, 1.897565852339484771e-01, 7.505809012682896908e-01, 4.116569017885143844e-01, 5.628121394382811227e-01, 4.423428269721071948e-02, 2.093865104362493679e-01, 4.222488997824588308e-01, 5.573979474100688725e-01, 6.905058547561992999e-01, 2.040432176376079099e-01, 8.175175866668537017e-01, 9.073422030328075483e-01, 4.069335294284063265e-01, 2.502297368163939328e-01, 5.585826717115447426e-01, 6.929196826290767719e-01, 8.995267711673052835e-01, 5.826905456574241748e-01, 9.555215676926149815e-01, 7.749149317025061379e-01, 1.872430788977980931e-01, 1.669818403373153626e-01, 9.510249394017417091e-01, 8.210048594063583671e-01, 9.020457345311077013e-01, 5.064478606763567203e-01, 5.886119244418744900e-01, 1.028481834366618136e-01, 9.457323810395587560e-02, 7.354492511614340033e-01, 5.356617311469558107e-01, 4.985227777598075782e-01, 4.598423121062100716e-01, 1.070301247765585440e-01, 6.358492028585160938e-01, 2.839343013872066557e-01, 3.395999585134679838e-02, 3.237235411631637916e-02, 6.343323634475701578e-01, 2.329902726789953027e-01, 4.798137219111739404e-01, 1.908266033397767458e-01, 8.093461841012853375e-01, 4.959641108383889274e-01, 6.328228576393643001e-01, 8.249465204584892630e-01, 3.608575883471460966e-01, 1.180441429926628455e-02, 1.776058195447792198e-01, 2.713246771278907676e-01, 8.627668085784369056e-01, 1.767727808565824343e-01, 3.310656810969331287e-02, 1.439093399825076142e-02, 7.615382161089990776e-01, 6.684925877650018666e-01, 8.326630976346908186e-01, 9.276466407954258031e-01, 9.960933374048178690e-01, 4.395082172891089378e-01, 3.289198421212854995e-01, 6.244563585462646893e-01, 4.653276510924793108e-01, 9.864703501735679891e-01, 3.482569442891849110e-01, 8.059229094475864885e-01, 2.684195259526657162e-01, 9.128914893882213999e-01, 4.819886320232001642e-02, 8.860421639676911987e-01, 9.255189636699314715e-01, 7.734773020584104763e-01, 9.094077256548568911e-02, 6.146666781217099418e-01, 9.836688990164309532e-01, 1.720082866829062695e-01, 8.355693800747394651e-01, 3.098490314540830459e-01, 4.231604636340267206e-02, 9.267339879965176275e-01, 1.243580203053351180e-01, 7.680668780023564013e-01, 9.207326266295122741e-01, 3.313643249122920353e-02, 1.460657173051190805e-01, 1.503347441432921205e-01, 1.607553832839154762e-01, 1.309126540438001751e-01, 9.227847325850994098e-01, 7.181848045425366367e-01, 2.538105317163133479e-01, 8.283218237707967724e-02, 8.111332974524758654e-01, 3.311554475286809796e-01, 6.257726218991856992e-01, 1.946729802148559896e-01, 7.955841464778848904e-01, 1.260039560186997643e-01, 9.526965144220400639e-01, 9.263202277681780172e-01, 5.863409385626884296e-01, 9.804231018980074097e-01, 9.690841767213020930e-01, 3.504387874261273850e-01, 3.975269207031955632e-01, 9.930723116626347657e-01, 9.125694389524188765e-02, 9.802044695899145843e-01, 2.458195015740795575e-01, 3.379188003507521132e-01, 5.326650159502580723e-02, 3.714754836097367563e-01, 7.384547817915704249e-01, 3.906760039671332563e-01, 6.362417143029658329e-01, 4.557666337623533237e-01, 4.327306091040632463e-01, 5.964314778463063460e-01, 5.995462266437254772e-01, 4.082345639953312566e-01, 7.942380271303350892e-01, 4.019952730681987663e-01, 3.553503704099711391e-01, 3.734753469333742526e-01, 9.763116956040811256e-02, 7.968116868116156271e-01, 5.813456696395423728e-01, 8.922578500633009391e-01, 8.278655671294646856e-01, 4.058086381517698737e-01, 5.508051856480304653e-02, 1.325066063026427987e-01, 2.400476658402759256e-01, 2.339556602199842628e-01, 2.720083881187808084e-01, 3.697908687239971348e-01, 4.148443571935890306e-01, 7.950052546397123887e-01, 5.596397562637718259e-01, 6.625195754589862096e-01, 8.475386207559477691e-01, 2.572689252395021775e-01, 5.240631964751546468e-01, 1.749438492309156601e-01, 7.887842702581563392e-01, 2.314677156256912949e-01, 6.633477551409331374e-01, 2.209789366173934774e-02, 2.989030899706021649e-01, 6.848709917967068517e-01, 5.632369878363940874e-01, 3.191069942508812929e-01, 8.651934406581289760e-01, 2.498580552130864052e-01, 2.889971275216816071e-01, 2.719326468062322477e-01, 4.505351858511354446e-01, 9.948435210056687517e-01, 6.993961287123674764e-02, 5.321924034306770857e-01, 1.923072969278514371e-02, 9.578389575642742848e-01, 4.140477537163762545e-01, 6.123709336525504643e-01, 8.517276340870677531e-01, 3.698363137256314159e-01, 4.144648049147170998e-01, 9.757350814767625780e-01, 6.996561159756882198e-01, 3.318241520291880242e-01, 4.657864517264698745e-01, 3.018187082238829241e-02, 2.022502653707989595e-01, 1.518951268888147355e-01, 3.292499438257411037e-02, 4.544608891686958696e-01, 4.215530076696623052e-01, 1.990769704491943126e-02, 8.516275285124412786e-01, 9.901247840286935276e-01, 5.713544537198312900e-01, 9.147448311647314867e-01, 8.060059742148600881e-01, 8.671706321171125387e-01, 9.034216520069726641e-01, 2.862240021819916283e-02, 2.284980016455501473e-01, 3.705266995260256269e-01, 3.052224293100387342e-01, 4.528661665239749889e-01, 1.435592267189709781e-01, 8.109263767505592302e-02, 9.699066531938167479e-01, 6.936027348665634307e-01, 2.119222734654454265e-01, 5.270374412858158664e-03, 3.990699696127602558e-01, 7.333350544127015258e-01, 9.254551100426099408e-01, 8.927810478814233175e-01, 7.553689521867471557e-01, 4.208247130913519429e-01, 3.059399835087484032e-01, 2.496274463716451619e-01, 3.374813565710205743e-01, 3.471353716775119613e-01, 3.447470271544585962e-01, 3.277405821315873980e-03, 3.516049552647192433e-01, 2.856891418834857088e-01, 9.689520455898814610e-01, 6.511895113242395228e-01, 9.597248448133952614e-01, 9.216787947743988463e-01, 1.189534251862430503e-01, 8.269434696733100054e-01, 2.160316413045163808e-01, 5.632700418724686520e-01, 2.537149497155070654e-01, 3.827423034166550081e-02, 4.673098396524285048e-01, 4.472782528233692489e-01, 7.635677807359985136e-01, 6.636601872240223132e-01, 3.800277078185106960e-01, 8.916131372991935311e-02, 4.027579361048496120e-01, 9.744363835508981220e-01, 4.906671506155128037e-01, 9.856645073898950837e-01, 2.681251035795850224e-01, 6.616412754697853504e-01, 1.203564224422059570e-01, 1.601952141506004790e-01, 8.540818213672689563e-01, 5.281893515618509838e-01, 9.541721789492034755e-01, 5.008557460995006760e-01, 4.398877256991220452e-01, 5.858610546453804080e-01, 4.038582746418445391e-01, 5.942589849856945161e-01, 6.933580223078950056e-01, 8.229359275540872876e-01, 7.972758011463445538e-01, 8.893417231476933305e-01, 9.377768518109051987e-01, 1.384669961888780956e-02, 7.935411964206938451e-02, 3.283067026534485233e-01, 3.188272115274195517e-01, 6.497085827325047580e-01, 1.187104593739770619e-01, 5.926924667392504675e-01, 9.442124078901511508e-01, 5.796321453561859016e-01, 9.273707227485834537e-01, 5.919670492681270435e-01, 5.122240110598345053e-01, 6.985964000234525795e-01, 5.194065792224658584e-02, 4.709469592764102264e-01, 1.882827134997612506e-01, 6.886455976497731779e-01, 4.326205441889537373e-01, 1.926676763112380730e-01, 3.244390684391770807e-01, 1.650736926014670092e-01, 2.955739005142732356e-01, 5.013754292338459262e-01, 6.031303710680100405e-01, 3.512495716720643452e-02, 9.289413989609653921e-01, 6.335623358994496579e-02, 8.019829275427294846e-01, 5.615280221661519411e-01, 9.813077362348301413e-01, 2.416445718974676860e-01, 7.945710048714692553e-01, 2.567497035816594386e-01, 4.309455830422072586e-01, 3.982583524251683271e-01, 6.578192876888105944e-01, 4.448568630458524797e-01, 1.284934652771264028e-02, 2.306793079631299925e-01, 6.097620690426198697e-01, 9.404316125444971419e-01, 7.373778509711192974e-02, 8.012632506036657665e-01, 8.760616325452361686e-01, 7.690050886380750406e-01, 3.925611235648990838e-01, 7.239451035286642577e-01, 7.539468564407767470e-01, 7.960543669643205256e-02, 4.318380354903503249e-02, 1.202262591532055058e-01, 3.137730530387082828e-01, 3.006056378936453055e-01, 6.398426665265695146e-01, 6.670979914191187410e-01, 4.701137552983928325e-01, 3.477810423938038076e-01, 2.233133503450976734e-02, 9.934359412603903650e-01, 2.140561376669477822e-01, 1.383167028098332141e-01, 1.820637998685870618e-01, 6.273435197389153339e-01, 9.034527050309172358e-01, 4.860932534774151659e-01, 5.356658849078341778e-01, 4.549014696220939347e-01, 1.851097172215214915e-04, 4.185852557780533889e-02, 2.967434488499143264e-01, 5.907873748504480771e-01, 7.704269115735287166e-01, 7.567698835020432169e-01, 6.367935079038554713e-01, 1.980796677381816140e-01, 6.714901898236835809e-01, 6.678803236357987450e-01, 6.906659210220115197e-01, 7.220004003956356220e-01, 4.983973070989438092e-01, 2.607335686586728651e-02, 2.820583374499849305e-01, 2.281825497241865008e-01, 8.414112312805381855e-01, 2.041416447055408590e-01, 8.850183282990748967e-01, 6.599119053633104581e-01, 9.957809258297044552e-01, 4.217409724074227539e-01, 7.283210948566398724e-01, 7.599441296426578951e-01, 1.721461937012111199e-01, 7.456993543965944049e-01, 2.259747362257549103e-02, 8.422630642237359799e-01, 8.605878822884437396e-01, 4.783224089274182855e-01, 5.446595654478815218e-01, 1.998835701650794883e-01, 2.678458355190467821e-01, 6.810361990840994029e-01, 7.664577231353635334e-01, 1.562808162546115986e-01, 9.632049879312162277e-01, 3.136054273364815570e-01, 9.243155492152025365e-01, 2.565696609862347377e-01, 2.325964177367764174e-01, 2.692244654799881842e-01, 7.261672051898785396e-01, 2.147185730856025765e-01, 6.760922734764664987e-01, 9.257320985464061180e-02, 7.315647973833643292e-01, 1.894159473687382911e-01, 5.682066972358894574e-01, 5.246203143771746014e-01, 5.771546550614101712e-01, 5.664205247045145386e-01, 6.696758115768418618e-01, 3.007400423054361616e-01, 9.361130566798631092e-01, 5.802855737588101803e-01, 1.100396319981654797e-01, 9.993884356711056904e-01, 5.106456826681244898e-01, 6.281130589516090712e-01, 3.842544834867744896e-01, 9.251557520329393158e-01, 6.002897612223636603e-01, 5.508414343456790041e-01, 4.514874959818524491e-01, 1.640213551302530937e-01, 9.486554830136675331e-01, 5.451795660314573411e-01, 2.337503828109299409e-01, 1.582096915100849599e-01, 2.473050725903211677e-01, 9.809006094448988744e-01, 4.650448187464948507e-02, 9.926672488609925016e-02, 6.775616202292915613e-01, 2.305560452293599349e-01, 4.593239108858561126e-01, 2.564666923335865434e-01, 1.043166268290891263e-01, 1.942072474049652553e-01, 3.230084110551068588e-01, 6.057845106402509616e-01, 6.987618091348963834e-01, 1.172531198347217529e-01, 2.371229305247979646e-01, 7.043973602496668429e-02, 5.117070682330213671e-01, 1.815215197470248509e-01, 1.840177033164536458e-01, 7.128386956496253202e-01, 4.920079928677920655e-01, 6.691123275004403625e-01, 4.360561404319404644e-01, 8.566786333532153686e-01, 6.521030040921741433e-01, 8.165394083423990201e-01, 7.176399519835413576e-01, 6.033701539708620221e-01, 6.781234230257677797e-01, 4.916921880892151098e-01, 4.370711263230456778e-01, 2.932411888106395761e-02, 4.383724168133019267e-02, 6.601632809084639897e-01, 9.439834002265036494e-02, 7.124940384330916698e-01, 6.084801289924864076e-02, 3.684142581651492221e-01, 1.076555023973090469e-01, 1.643588991752926998e-02, 5.117879702815814058e-01, 4.757442371199900877e-01, 8.447294759547618881e-01, 1.649275145670393850e-01, 8.871214906763041919e-01, 8.796730909164388601e-01, 3.188769703749445572e-01, 6.673263204725632392e-01, 4.784754868455646237e-01, 1.820489042905629462e-01, 1.584958201579695636e-01, 9.351778173835371133e-01, 4.437122407268225821e-01, 7.650884292928873398e-01, 6.706804375508582661e-01, 9.399168534080868387e-01, 4.834966929672350755e-01, 5.171216640132233477e-01, 1.117472670547049046e-01, 1.349648435290444759e-01, 6.481777824675144517e-02, 3.085642734888362493e-01, 4.122391646018871286e-02, 5.855256641220694946e-02, 1.911986140062428841e-01, 3.855326213448553863e-01, 3.197446800703848124e-01, 9.734560858088678881e-01, 8.974898583602297641e-01, 6.672447351357446710e-02, 9.877056213111772287e-01, 1.902266864105096877e-01, 3.434100864988950397e-01, 9.407338807586592688e-01, 9.379777937024879053e-01, 6.983192681998254825e-01, 9.541988958320197778e-01, 5.009160897407849422e-01, 1.948013642523204747e-01, 7.257342533968955678e-01, 6.240795350296431121e-03, 4.782062148425071380e-01, 8.107592856910149637e-01, 6.186174546733597124e-01, 9.331831026725424527e-01, 5.869950752526987836e-01, 5.560140958697392666e-01, 4.353573463526413945e-01, 3.682453668663452362e-01, 2.292762390542829321e-01, 3.150328965611076670e-01, 4.163271319973518847e-01, 6.932432862233451898e-01, 2.460451148363116680e-01, 2.420774974470043250e-01, 8.327616822443084654e-01, 3.982083989102525035e-01, 5.477530415462695812e-01, 9.128104526712192968e-01, 3.565083275754833414e-01, 1.454977101479426604e-01, 5.449855139395285430e-01, 9.549800936793519102e-02, 3.508759459054697216e-01, 1.619446087194910122e-01, 8.835089482950654327e-01, 6.934354308463513972e-01, 6.781587664481843192e-02, 3.257712087075557150e-01, 8.343693868468501362e-01, 3.024769804981817245e-01, 4.656051284376094834e-01, 5.174688433516004826e-01, 2.446968391181249813e-01, 9.862486505449533647e-01, 3.135163556901117698e-01, 9.215268295220274686e-01, 4.290952147619862544e-01, 2.766084341672370717e-01, 9.815617852893224748e-01, 1.880782296557114708e-01, 5.360119960073337492e-02, 5.155187076188806339e-01, 4.133144448895708645e-01, 8.302217542197134481e-01, 4.733463110756161996e-01, 5.583041221919827768e-01, 8.698710308789593393e-01, 5.939341027237490245e-01, 4.368117456235562357e-01, 8.519890413791566530e-01, 9.857571136776541731e-01, 1.948860598338104716e-03, 6.955685870945720328e-01, 8.140055287980497711e-01, 7.287051698557435175e-01, 5.280060622517336322e-01, 4.393301952212637640e-01, 7.259601290520274475e-01, 7.938075400966687623e-01, 8.315092282641132204e-01, 8.063839058963016004e-01, 5.878043487596420480e-01, 4.159789818925126448e-01, 2.629173522135334062e-01, 8.628400527916748608e-01, 7.700785210453998941e-02, 1.271246250527109656e-01, 3.314830023177560703e-01, 8.778221204226400731e-01, 5.594085012654094191e-01, 9.703337810437139277e-01, 4.164827299878612332e-01, 6.339458609717328885e-01, 9.633676005885977167e-01, 3.895319717607215737e-01, 6.778340201756219985e-01, 8.749770416573574572e-01, 7.049919181825520242e-01, 3.187343932958838222e-01, 9.895653322094096760e-01, 5.172088431228567540e-01, 7.749349928998129355e-01, 6.520503052130609267e-02, 1.258168171961180637e-01, 9.436794938221233497e-01, 8.292763426779203861e-01, 7.434985619927622080e-01, 7.618394260580221289e-01, 1.111743698977942507e-01, 1.200092411068132553e-01, 5.397335856503986395e-01, 5.056448082667602817e-01, 1.776561401933939577e-01, 6.641952866435735237e-01, 8.935181746756946097e-01, 1.595754792579743009e-01, 5.718810609850531745e-02, 5.286060825775298344e-01, 3.377344539452381000e-01, 6.739110375506079942e-01, 7.917759141207422191e-01, 2.554025365628406208e-01, 8.369778026186059927e-01, 7.990211099484945123e-01, 2.067730323985725871e-01, 3.229051140742509873e-01, 9.022076124176563461e-01, 2.456361906243587911e-01, 7.037764179519312435e-01, 8.995145077082830065e-01, 5.379846640227064353e-02, 5.098574392764312346e-01, 5.142557219020077452e-01, 5.143162824595607363e-01, 4.182127916522991318e-01, 3.016202854864584726e-01, 3.738891005468562012e-01, 5.141019241971533926e-01, 9.728050207040266351e-01, 4.435255114026575574e-01, 4.233044556176625006e-01, 1.059363956809267621e-01, 9.147550533180742738e-01, 8.556063816700749669e-01, 5.486879804696617180e-01, 1.863015714352790619e-01, 9.591162423922122704e-01, 3.845423102682669070e-01, 9.488657438173020431e-01, 9.902760288049682336e-01, 5.147114492970256139e-01, 3.999919231595367559e-04, 6.840319765858778045e-02, 5.313207604288103791e-01, 8.107528130095018604e-01, 8.360839773332335856e-01, 2.626096858567270043e-01, 3.441019466548013161e-01, 6.302007119539422553e-02, 5.302698091715418727e-01, 2.065904258556377771e-01, 7.315769450017813869e-01, 1.986709934440363812e-01, 6.594446076065033635e-01, 8.198006526202156197e-01, 3.447857583376109925e-01, 6.236397816750979262e-01, 6.112547857727567147e-01, 5.281150299053786190e-01, 7.309939229304494024e-01, 5.274697821494633843e-01, 8.555053792307575344e-01, 2.278369887457859858e-02, 1.353093908511690258e-01, 6.936354546866956294e-01, 5.481418507122863826e-01, 1.768298632616437938e-01, 2.861206105415679546e-01, 5.880083533373615667e-01, 5.913101302561503229e-03, 2.975381631819400408e-01, 2.290224411673442428e-01, 7.850113849511298758e-01, 2.599974013299012968e-02, 7.477533530548813312e-01, 3.136821208739750122e-01, 4.507014898508848733e-01, 9.626215787234191357e-01, 8.617007228268908081e-01, 6.976506719148450886e-01, 4.758910039841903195e-01, 4.640652622497010160e-01, 2.580934641602673496e-01, 1.417137396063279653e-01, 2.953429212746750410e-01, 6.700854625385568863e-02, 6.260509996650404085e-01, 9.199865710787001882e-01, 3.242448675238817080e-01, 3.940769604435497286e-01, 8.316599003701002912e-01, 1.820106485600456736e-01, 3.599319323067593501e-01, 1.751670600435202840e-01, 6.468258730200471263e-01, 8.068190328720376003e-01, 6.964450687807635099e-01, 3.953567963873327873e-01, 9.753905965909956954e-01, 6.494775958442621233e-01, 4.209183311828213619e-02, 4.254358070734762798e-01, 2.113028610037579469e-01, 6.474255003303482914e-01, 3.124644073808600653e-01, 5.837582153200221446e-01, 4.956295456301564872e-01, 5.288688473303203574e-01, 3.773025904386838603e-01, 3.841570669332083909e-01, 9.417414756487459959e-01, 7.262406198602422425e-01, 2.077707501262942291e-01, 1.386320616822089846e-01, 1.582844573692170353e-01, 6.290507340249542612e-01, 2.138633747393366702e-01, 4.570463473121197939e-01, 5.912948826771602384e-02, 7.784762568825167595e-01, 6.596999788050321445e-02, 6.598954212441360268e-01, 1.015688483189122887e-01, 7.390849680822474399e-01, 8.108824150531905584e-02, 2.537322845313108588e-01, 3.935229287293201539e-01, 3.009917851094498498e-01, 3.239220839944277897e-01, 1.347520479894119272e-01, 7.875414595730795275e-01, 8.639217792133883078e-01, 2.118494354933010970e-01, 9.892644910716238416e-01, 9.618358114849298035e-01, 1.543745759649962912e-01, 8.445978544464475268e-01, 3.579911906200510252e-01, 9.472432512868104171e-01, 9.688456417944092403e-01, 6.755857877140747370e-01, 9.851569769805210708e-01, 8.695911761428763709e-02, 6.917444384709957594e-01, 6.160244639405658695e-01, 3.246682331166508284e-01, 8.669020044958222204e-01, 4.401691752749409270e-01, 7.708039355194790110e-01, 3.215812871518704541e-01, 8.545956652114921059e-01, 6.647053734118343327e-01, 6.828954805530388361e-01, 3.305361315982761894e-02, 1.699552818832987533e-01, 2.888397474991005187e-01, 6.986240328199196936e-01, 8.045854665479312828e-01, 4.615942763391472914e-01, 4.060707517138257422e-02, 8.066843935281148292e-01, 1.355129826419740335e-01, 2.054089585650114014e-01, 2.188765416867020919e-01, 9.355946434610265539e-02, 3.266651821213931162e-01, 9.101920240560619213e-01, 5.324132055252229767e-01, 2.880578836047081315e-01, 6.061140931884836380e-01, 2.914441798230319458e-01, 9.639886861226159009e-01, 2.952998884512212374e-01, 3.231987656842956746e-01, 2.420473932899359359e-01, 2.757705681374044149e-01, 3.009292770788735694e-01, 6.802010280296392208e-01, 9.792174455970952263e-01, 2.532747507219715866e-01, 4.741032203629558239e-01, 3.119171690139740383e-01, 5.696691068880416209e-01, 7.211664032347048225e-01, 7.712701934977969076e-01, 7.684524026764569804e-01, 6.181963874292127903e-01, 9.110824166547407676e-01, 9.435239251671811989e-01, 9.436589533774869532e-01, 5.619993818571114019e-01, 6.972654600672493208e-01, 8.375708207312764220e-01, 2.837576498296110472e-01, 4.887928061512852307e-01, 4.629721673728266068e-02, 2.634968450322324185e-01, 7.563948632146133555e-01, 3.327657386972703302e-01, 4.005268142257966679e-01, 5.461915901262672790e-01, 8.682220713462898143e-01, 3.241442997111785296e-01, 8.532527070753156417e-01, 5.178344554746339146e-02, 8.652295831595064879e-01, 2.612204757164674485e-01, 3.658931187479195213e-01, 6.538987416613393222e-01, 6.116713898038356537e-03, 7.745536902654357458e-01, 1.080579659297005168e-01, 9.020367244184358535e-01, 2.643776790134963472e-01, 6.445727111039173396e-01, 1.088407840082714628e-01, 8.777772792220818188e-01, 4.423827469401539481e-01, 5.199992396658228433e-01, 5.658854246147097811e-02, 6.597391523096157728e-01, 8.693677303987001892e-01, 2.484658470093303595e-01, 3.171758007199630969e-01, 6.451980434027739797e-01, 5.101350367955986842e-01, 9.822086469137643050e-01, 6.162145541198175147e-01, 6.966015114452236978e-02, 9.048226399677588017e-01, 6.046012418808871525e-01, 1.870329973290914549e-01, 8.093468933193331827e-01, 6.777101581159543642e-01, 3.094940538743291003e-01, 1.159324132766992033e-01, 8.659093215180060366e-01, 6.704991379909199800e-01, 7.024629613044505172e-01, 1.276907288199609358e-01, 2.165309152883739818e-01, 6.113393660858934542e-01, 4.307868931634320497e-01, 7.196882976238616614e-01, 7.180744756411112650e-01, 4.927388884053480189e-01, 2.050793851099783627e-01, 1.285260896530776749e-02, 1.465960505966265037e-01, 6.293402261668435971e-01, 3.392164875341571739e-01, 3.311702884785783230e-01, 1.662252754923633502e-01, 4.814432513311673323e-01, 6.548561581460733416e-01, 6.628485520972190459e-01, 1.131465405644200561e-01, 9.780623970324023864e-01, 4.855880463617217591e-01, 5.553709915324352986e-01, 5.069358969978740026e-01, 2.861177718615946497e-01, 5.939736194359112043e-01, 8.729016539235180394e-01, 9.924865637516800954e-01, 9.480873995268502830e-01, 6.333817053565609090e-01, 8.186466163811404462e-01, 1.742059921930884103e-01, 2.769372914975045119e-01, 5.281693674284038131e-01, 2.229711239492301322e-01, 5.599137409656566033e-01, 2.161689748456920857e-01, 1.500868072345762361e-01, 6.760342891595720605e-02, 4.646742376785629181e-01, 1.160863440660248741e-01, 7.139775973218194516e-02, 9.596990452948810368e-01, 2.622249042209684466e-01, 4.736491554357119549e-01, 5.599795620627587844e-01, 4.823194029257255044e-01, 1.394047969209961380e-01, 5.734941505876635093e-01, 7.776892519146612059e-01, 3.693048846688374298e-01, 5.702101763229981968e-01, 3.522694186289316298e-01, 5.019311013504680341e-01, 6.065904671040140972e-01, 2.846489715750282756e-01, 1.970650994225351393e-01, 7.833293854571390380e-01, 3.834640816747662551e-01, 2.900863425116024380e-02, 4.594787190561652190e-01, 7.377335964218082465e-01, 1.189620773424376887e-01, 2.893513842713230089e-01, 5.888950700780982983e-02, 6.634960560432635879e-02, 1.340334068849590721e-01, 8.349746134986482105e-01, 9.537001220994441031e-01, 3.701537957708143922e-02, 4.984199217340160581e-01, 5.644261688537981492e-01, 9.234422893413225530e-01, 8.567035755726595259e-01, 9.855441815200494116e-01, 7.471263905151928619e-02, 5.651929515515891067e-01, 6.057074631635738227e-01, 2.923427553447299765e-01, 1.786480172412906187e-01, 1.681394140795197389e-01, 8.900758203251657452e-01, 4.068379192488553731e-01, 6.275008357228337719e-01, 4.193042945868917792e-01, 4.272054537285021603e-01, 5.982645475193059531e-02, 9.114181219292570857e-01, 9.871561311812996342e-01, 9.239777607744016352e-01, 5.081587685920029296e-01, 5.873717574711638800e-01, 2.214850242183373508e-01, 5.450870283183453235e-01, 5.308924638559366915e-01, 6.257373286889311714e-01, 4.742155966592865313e-01, 3.822283714474067340e-01, 3.977030761968796679e-01, 3.170677980138134934e-03, 9.783560388371806416e-02, 5.317563182411664258e-01, 5.678331409549222109e-01, 2.007245646469144329e-01, 8.089084765181570047e-01, 1.746959727451411759e-01, 9.914750707035868693e-01, 6.936371395716589561e-01, 9.825713817902129721e-01, 8.926086142063947848e-02, 6.150520152038277955e-01, 8.726419830150212720e-01, 2.577957378032256774e-01, 4.595256274305292155e-01, 8.420074622633499928e-01, 3.614218742298774822e-01, 9.232321913334156083e-01, 2.884577874101952877e-01, 2.453079691557712994e-01, 9.737027560647929514e-01, 4.683489198698447264e-01, 9.713158483835324097e-02, 7.966052622574812392e-03, 7.116870156318103602e-01, 5.977655790360996146e-01, 7.069080995543510770e-01, 5.954587604503721598e-01, 1.818692225859343814e-01, 7.561396429676475739e-01, 8.793305081345876850e-01, 1.242006260054508496e-02, 4.319307262454111229e-01, 3.609068566223504471e-01, 4.517040705281220592e-01, 4.143064550142566138e-01, 5.150699375105943778e-01, 5.350507369296216842e-01, 1.546170165069923885e-01, 8.569681730373231998e-01, 9.815949751373066468e-01, 9.505886662132276843e-01, 7.870873115381529228e-01, 5.471611724692280188e-01, 1.687212156887807624e-01, 4.332385129285519776e-01, 9.844614146515056063e-01, 9.498730018788484886e-01, 7.839740895614494276e-01, 7.167328196476618896e-01, 6.537207994971057090e-01, 4.704309826444344478e-01, 7.131662384378044672e-01, 4.838494103215335018e-01, 3.009470633451124533e-01, 8.246298030910752530e-01, 9.993958975749027696e-01, 9.207384018686811666e-01, 3.108404549398591232e-02, 9.722074610276396633e-01, 3.852711709969696696e-01, 9.588214204751619452e-01, 2.866927266007265884e-01, 7.627625008538371776e-02, 2.391214518960428081e-01, 8.922178408335905697e-01, 4.793772934375252204e-01, 2.341309721472093486e-01, 4.958456923357861812e-01, 4.617360587156321139e-01, 4.667400546365747527e-01, 5.158729414445035744e-01, 5.402503583888912386e-01, 5.282994290290207173e-01, 8.555629148519006133e-01, 2.556436359607641151e-01, 3.498385375705057587e-01, 9.405255547001588612e-01, 6.405854299464964763e-01, 7.368991432287235188e-01, 8.773736247939023514e-01, 1.780902081695836803e-01, 6.970908908717068364e-01, 9.353276312723534103e-01, 2.153515863655444118e-01, 2.080855959914255648e-01, 8.260056974892382442e-02, 3.878022803964334964e-01, 2.450382279898044580e-01, 3.292264528575766791e-01, 1.380680721817552081e-01, 9.459674421811028466e-01, 7.267259989051888525e-01, 4.068669710516106264e-01, 2.157691557336469390e-01, 4.390259122124041680e-01, 9.014049676124558097e-02, 1.468684440627241183e-01, 2.994936033057410962e-01, 2.736565427217022561e-01, 9.333067066281405255e-01, 8.417370144511093777e-01, 2.636266552708421695e-01, 3.813202096407096731e-01, 4.934347724378719269e-01, 2.964847843367249269e-01, 5.613481068903224402e-01, 1.500192556388476317e-01, 9.565301451639028896e-01, 9.070457640794372944e-02, 2.786305013924238461e-01, 4.290297828326889995e-01, 8.865505518326463053e-01, 3.719517483760648169e-03, 1.952440447050589889e-01, 2.204366162475244750e-01, 4.012285279754437828e-01, 5.319353443927768987e-01, 4.504685027533678054e-01, 2.911640678792865589e-01, 7.581817985709130570e-01, 8.624050780064349553e-01, 5.095511327406131857e-02, 2.543260026634880933e-01, 6.427124452454054948e-01, 6.411413522592578074e-03, 3.980114831895909533e-01, 5.932596251458575054e-01, 5.484011386327418691e-01, 7.765081033066895122e-01, 2.815360687086467806e-01, 3.087847698532290019e-01, 3.869404459145753261e-01, 3.536805780442256464e-01, 9.342942956166860879e-01, 7.859877739566741850e-01, 2.531242322317641680e-01, 3.797072517493341876e-02, 4.284863295226744584e-01, 1.498612538918805415e-01, 1.515293699549710021e-02, 5.806174528515125610e-01, 7.554608664621561553e-01, 7.253238316511261274e-01, 9.134489241739008891e-01, 6.697632668711808179e-01, 7.019662337236919347e-01, 9.110885897893331586e-01, 3.715598595784582181e-01, 7.185992214550623869e-01, 2.720266565391959435e-01, 7.572052614049952224e-01, 2.824965455883565180e-01, 8.049256793705490409e-01, 4.186211790074208516e-01, 2.188239793800965949e-01, 9.136220859514323500e-01, 3.065817712063090283e-01, 2.296953170864883265e-01, 9.245017762336266154e-01, 9.507766388563582138e-01, 1.592761254876813026e-01, 1.356052548125097346e-01, 2.468572401360817348e-01, 4.827291531445074280e-01, 9.333285863081497435e-01, 5.563778799950439558e-01, 5.842044931696779297e-01, 8.029571358484287602e-01, 8.152256674280036197e-01, 9.016955952937043550e-01, 6.298895128812555255e-02, 7.509893940756392494e-01, 9.531316768529899397e-01, 5.117754265056062568e-01, 1.175037139434172012e-01, 5.354789636280974374e-01, 9.993249367323117083e-01, 8.964646757069848482e-01, 5.544301833526387169e-01, 2.427455712720399117e-01, 6.313355285274843687e-02, 7.208215586905833971e-01, 6.505170328802778457e-01, 3.345361820102188966e-01, 8.023336961209500684e-01, 8.453982386079346156e-01, 5.304740117367923169e-01, 8.748333232862337550e-01, 7.900585755957635348e-01, 8.505772080669972146e-01, 4.292648800023921019e-01, 6.227968218223360886e-01, 9.274986030405554249e-01, 8.869651213358267228e-01, 9.357294261843356331e-01, 8.705090429797252005e-01, 2.757066862097154458e-01, 9.662175341373309134e-01, 5.006963146692428035e-01, 4.404471127247386875e-01, 5.987975711188388006e-01, 5.436105017627053115e-01, 7.808599951993219213e-01, 7.285822876842072970e-01, 2.402492726288072977e-01, 1.967317436870253955e-01, 8.011729573791190884e-01, 3.648413390282531643e-01, 2.380389425624246935e-01, 9.727201510793472838e-01, 8.248701273049001692e-01, 8.004489763323089369e-01, 3.194741967269736915e-01, 4.934955037467835259e-01, 1.708459678398542014e-01, 2.004787155547473887e-01, 9.337276879147610176e-01, 1.153628961306465278e-01, 9.439913777991724153e-01, 3.161846848570685781e-03, 2.705587575295046454e-01, 4.474666917897233143e-01, 6.712548635850562606e-01, 8.188609828749965347e-01, 9.606667722838886370e-01, 8.552267968369441364e-01, 8.276858929047736790e-01, 9.557813576238548547e-01, 7.396308447402050179e-01, 9.851708681359825359e-01, 4.429657763581315577e-01, 2.117804910714780608e-01, 3.572520595203681482e-01, 1.708487110791180597e-01, 1.587397505855351332e-01, 1.496180748635617952e-01, 1.361620909443798655e-01, 3.523626794250663274e-01, 7.274947755251812698e-01, 7.258874806235192656e-01, 5.501263636069859686e-01, 3.198581324325752151e-01, 1.147695147327178061e-01, 3.434361275364721244e-01, 3.221027574575024421e-01, 9.070533789900501187e-01, 4.987257017587708452e-01, 8.384026063950074104e-01, 3.120426298219901584e-01, 8.296789789370860868e-01, 6.750466358150313262e-01, 1.105140992553930168e-01, 6.656844010945098811e-01, 9.492521878459638796e-01, 2.384249243157066100e-02, 7.433643146664262735e-01, 1.413216458025526034e-01, 9.565837000832161374e-01, 7.337250175056609924e-01, 6.938667078256477438e-01, 5.617252483617303227e-01, 4.655995949446483650e-01, 1.120831059534025675e-01, 9.252579053067399029e-01, 6.380159311043133163e-01, 1.343369798284987371e-01, 3.098114623689489089e-01, 1.693966475230701887e-02, 1.001973984859780564e-01, 8.991331942530670363e-01, 6.850104396131194706e-01, 8.531945875239907440e-02, 2.000740535304799950e-01, 6.705663718011391217e-02, 7.044613137192493602e-01, 3.369178857606667798e-01, 8.979331907223371267e-01, 2.449348407003530681e-01, 9.517412494978955140e-02, 2.976984817941849895e-02, 4.761232779838474038e-01, 3.217405450629956531e-02, 2.027118913627990737e-01, 2.061238676636280021e-01, 7.619857656218165243e-01, 4.224527777119476135e-01, 9.513944278617560979e-01, 9.854037175716229280e-01, 7.317559200869396818e-01, 7.225428595397671572e-01, 4.178707319303546219e-01, 1.606799111320511009e-01, 8.420756123206211141e-01, 8.464726574241768775e-01, 4.682847189378628872e-01, 8.430635034314587495e-01, 2.678680978633413146e-01, 6.993287672153113144e-02, 1.406598754927575190e-01, 7.860562655487093320e-01, 5.653772477129772600e-01, 5.718638134031637232e-01, 3.773748937494054712e-01, 9.772102038744928665e-01, 5.747018013035769535e-01, 3.198548067601378331e-01, 1.441348610252403406e-01, 3.756473072718258810e-01, 3.000167755960111982e-01, 7.127484826466359280e-01, 4.227224649251457023e-01, 8.852131880783666029e-02, 9.656958637430829162e-01, 2.260266129226808918e-01, 8.418196550093716146e-01, 5.651828089277071143e-01, 1.817534395726150831e-01, 6.486625968426783517e-01, 5.435739814523435909e-01, 5.636124265773405639e-01, 3.634854311258547410e-01, 3.022220716158964260e-01, 8.529024019299737969e-01, 9.603340055452614862e-03, 8.659996673256098454e-01, 8.605935702710826307e-01, 4.942503446064927530e-01, 9.601416005205763993e-01, 3.459963209437763587e-01, 1.004420475742864860e-01, 6.816778346945043809e-01, 7.571771681515977459e-01, 4.592086426644051422e-01, 3.216832332708962072e-01, 8.300738985859215102e-01, 5.123177563785653588e-01, 8.600821881548760262e-01, 2.194230069350376899e-01, 2.375595166534114622e-01, 8.620855017356433558e-01, 5.877405909068239565e-01, 4.199183842307443459e-01, 5.910140452472190109e-01, 7.914232966836787231e-01, 3.968313531068428102e-01, 3.247392403617505030e-01, 5.175674959118828911e-01, 6.947990807150116188e-01, 4.851066111938896475e-01, 9.383307223693738708e-01, 3.067949680934664580e-01, 9.330612467058592152e-01, 7.673299018567156793e-01, 5.599364283122342245e-01, 2.599171286203862397e-01, 9.408774495518147374e-01, 8.061591550572444476e-01, 9.327366677874224798e-01, 6.885764774411723410e-01, 8.767873471888675274e-01, 9.671029948348414118e-01, 1.545327765621611893e-01, 6.596444348583023753e-01, 8.874167454892320506e-02, 2.724428971583745529e-01, 2.210985575169542305e-01, 3.158854120869472593e-01, 9.960752424628737112e-01, 7.099996921332468736e-02, 3.944627812610883022e-01, 1.243596942807226324e-01, 4.391582539551155268e-02, 4.160856411330662308e-01, 6.177516058160722467e-01, 7.348517596542328278e-02, 2.929639931075038173e-01, 8.941382063123272106e-01, 2.924424204111559233e-01, 3.269009410891436374e-01, 4.216005468388360211e-01, 2.517907610881828795e-01, 7.407960109476416921e-01, 1.406105006677595137e-01, 9.072871770183097428e-01, 6.781768794386016097e-01, 9.229913294242126920e-01, 2.403844350585223610e-01, 4.664593800647303112e-01, 1.036563791161569936e-01, 7.633495968322730196e-02, 9.080533788014134577e-01, 1.619333369486401081e-02, 4.044789330860455445e-01, 6.347606526261151405e-01, 3.598104937503474599e-01, 3.248131153895635337e-01, 4.998443663034301404e-02, 8.924105574905951688e-01, 8.550028859289184879e-01, 5.695776716666191009e-01, 4.423659401930536972e-01, 4.060325724375325462e-01, 3.601857726352463152e-01, 3.940595433974581341e-01, 8.591824815866634379e-01, 7.697498120168132056e-03, 5.753167826173265914e-02, 1.493923929845266396e-01, 3.715927778122212755e-01, 4.592563110546830640e-01, 3.918857894494287009e-01, 1.714640166393727183e-01, 9.010390110630307481e-01, 2.378073837157886616e-01, 4.935389341430037047e-01, 9.513689255162699476e-01, 1.242171881046286869e-01, 8.446635691047640337e-01, 3.365564273625815811e-02, 2.432835301386100380e-01, 9.597140557282046736e-01, 2.618015580545197118e-01, 8.909733255043980060e-01, 9.852219222897312667e-01, 2.731118132779119523e-01, 3.596964145694842574e-01, 7.119281513958566343e-01, 7.988011013427582796e-01, 5.883896330594976520e-01, 8.785524611479504919e-01, 7.346227930217060775e-01, 5.188778725751349574e-01, 9.824281302048902820e-01, 7.061270234636578547e-01, 7.146028754743319888e-01, 3.591521012808593927e-01, 1.404676014761332692e-01, 3.284658509603493592e-01, 5.026364340469618996e-01, 5.294114240023631845e-01, 7.154734513695720777e-02, 1.600017915796004275e-01, 3.457574025008895435e-01, 2.345237456018090250e-01, 4.134899637951997553e-01, 9.823412566785196809e-01, 6.349029218135386898e-01, 6.034483016253330279e-01, 1.288881171524197122e-01, 1.350248763706684008e-01, 5.884148785805534132e-01, 5.378303626462531684e-01, 7.763185711300370218e-02, 3.292366277318806156e-01, 8.150980376717639198e-01, 8.344906672417469196e-01, 8.869422067203966975e-01, 5.699398399256703704e-03, 5.010045876198299802e-02, 7.230037904781080327e-01, 3.445319217500746878e-01, 7.027276805847426644e-01, 9.964907404613231323e-01, 3.076005294174313232e-01, 4.351977015293465034e-01, 7.451818348164839234e-01, 5.698145131888578963e-01, 5.733006136325906610e-01, 1.523929757228645321e-01, 7.325600589398876261e-01, 4.784624280317211209e-01, 6.977014819447295846e-01, 7.279190895622934532e-01, 6.360616844239206369e-01, 3.194615180437017088e-01, 6.165869421030153452e-01, 5.450940789050076063e-01, 1.793001202813662431e-01, 3.545885446565018029e-01, 5.669099322780350725e-02, 5.221224194675594399e-01, 2.199652966458858494e-01, 7.990623222852873964e-01, 1.253173820100260127e-01, 7.271624688801060499e-01, 9.273444710023017734e-01, 2.178549364245286057e-01, 2.686754901747096524e-01, 8.211462329868108867e-01, 5.519376053943558791e-01, 8.298262449066891033e-01, 4.291240099368066607e-01, 9.908607826883802927e-02, 1.809151788629054791e-01, 8.620200505526539603e-01, 2.090655717311599715e-01, 5.837544182350596911e-01, 9.058434442838202427e-01, 1.529382652599762804e-01, 4.251710595549392235e-01, 7.233549874079979736e-01, 7.506674309657600519e-01, 1.107582871652298545e-01, 9.115279964761633380e-01, 4.399321267556018933e-01, 6.947532048509479363e-01, 4.920827642526919843e-01, 7.200217683331980312e-02, 3.708399322771208650e-01, 5.641145467088999332e-01, 9.295044671837401906e-02, 3.218515343910386406e-01, 1.893085479138740257e-01, 4.973184829920380690e-01, 9.387353939198643804e-01, 1.489101864418131971e-01, 9.410571123027670071e-01, 2.157535326628248484e-01, 8.668832082059665378e-01, 7.695856275943964153e-01, 1.181897641039681007e-01, 7.661528368644676679e-01, 4.965744382122353473e-01, 1.571891043142431832e-01, 6.234031528985872761e-01, 6.277784443262540703e-01, 4.088685113688180772e-01, 3.408018227634365127e-01, 1.754697029519193263e-01, 4.532574379447404933e-01, 2.286132932358516112e-01, 4.523518690327141267e-01, 9.113251581208490215e-01, 8.947002720445245139e-01, 8.791208285232082753e-01, 3.888797178972595026e-01, 3.635168248424663906e-01, 7.032680540337341579e-01, 9.658929776279521207e-01, 8.671129125527461401e-01, 9.016017646479382863e-01, 3.336791571149445579e-01, 2.789229677379558292e-01, 2.394706728870036605e-01, 2.155232193851200351e-01, 1.678482424932266626e-01, 5.191504128123223399e-02, 5.883918659764275638e-01, 8.284273044586569767e-01, 9.636421665714557383e-01, 3.524626824692027038e-01, 4.787110845879944399e-01, 1.998004852110464302e-01, 7.681879128266992929e-01, 3.237437025961438786e-01, 7.948514490511269029e-03, 7.609996258156821458e-01, 9.858101694470547960e-01, 9.871855322289607715e-01, 5.129731076621261154e-01, 7.728967877855908997e-01, 4.169459965992162176e-01, 2.904041518243149003e-02, 5.470800607014196792e-01, 4.701387800512121795e-01, 3.331194227399303931e-01, 5.857036366072163602e-01, 6.784740238691100433e-01, 2.887062636777734670e-02, 5.891261034274223318e-01, 8.346443253822551922e-01, 9.236999899010110981e-01, 1.250015420583102388e-01, 8.109436586842110328e-01, 2.782916926611141428e-01, 7.341805044617081277e-01, 8.417261093010314221e-01, 2.551052591272146008e-01, 4.581563883604768406e-01, 6.935886281211159909e-01, 4.286060327485840538e-01, 7.442221034403675439e-01, 6.015909964430055795e-02, 1.170079850514452735e-01, 4.902084775915239723e-01, 9.913783045788856496e-01, 4.233408419083479202e-01, 1.628338050787256075e-01, 2.883948993837683883e-01, 7.442618345328089191e-01, 5.410358554915140061e-01, 1.248227419544590822e-01, 7.452215539782682807e-01, 4.424632496418942074e-01, 5.851587669949637194e-02, 1.066449089840351555e-01, 9.932391444946686576e-01, 5.664726166648637040e-01, 8.309857314251027915e-01, 1.203886108416987732e-01, 4.954003363584191244e-01, 9.463398800479340123e-01, 1.123067963869821828e-01, 2.253984667965176492e-01, 2.693952420235141629e-02, 3.833896478714560879e-02, 6.412258270255722925e-01, 6.374449405608904884e-02, 5.969792025112268252e-01, 9.355234938644768627e-01, 3.663892573810216269e-01, 5.948936146322911789e-01, 6.737908685284421662e-01, 6.329953673852227736e-01, 3.477959942253347481e-01, 3.244878281509447349e-01, 4.433826917273249735e-01, 8.713734723138714111e-01, 6.116203182546813277e-01, 4.171274397445212667e-01, 6.242243332964767522e-01, 7.162062270230952210e-01, 8.982921007735914509e-01, 8.404901969720549593e-01, 5.510247483273085223e-01, 7.448081885052505458e-01, 8.129761792852171487e-01, 5.702293467854386844e-01, 4.109350709601599094e-01, 6.673409367745126719e-01, 6.724117071197273088e-01, 2.082211341070905330e-01, 6.078657759858754339e-01, 2.883167905240043849e-01, 4.851659262690986019e-01, 9.165286999943638158e-01, 9.533065783093641610e-02, 4.066421133080212469e-01, 8.576273290035362207e-01, 7.895523534244558439e-01, 7.738097798024995422e-01, 1.010325244076362289e-01, 6.347383536595782028e-01, 5.370646945545333173e-01, 5.538045348510034493e-01, 1.626206667787606086e-01, 9.430426793403954289e-01, 1.541187606892635287e-01, 2.128755668798214817e-01, 3.168569515652848723e-01, 6.352670317431564628e-01, 2.694704469832864269e-01, 9.296065181342381967e-02, 4.542477169993953678e-01, 5.991273047353026238e-01, 9.541858224163189683e-02, 5.293412933029987277e-01, 8.919527469961694432e-01, 6.300416533046416800e-01, 9.057340532301560998e-01, 3.401479287447899957e-01, 5.417383239393180894e-01, 8.176417356231677758e-01, 3.289057626787019739e-01, 8.449685201612968655e-01, 2.341962830325033940e-01, 9.349154053365577033e-01, 4.483096041702888668e-01, 6.931454759294399803e-01, 4.289631716368010328e-01, 3.887502561416140145e-01, 7.584042755059611229e-01, 3.295886701578422673e-01, 5.475955357377313565e-02, 5.365633263892414240e-01, 1.240897579789603383e-01, 8.729466097736429120e-01, 5.645026139139428523e-01, 6.311268207082054715e-01, 7.277263898665233821e-01, 1.634301176213315276e-01, 6.535810897780345297e-01, 8.981583707642117886e-01, 9.262607396238787816e-01, 1.127782795748361322e-01, 9.594857806178010151e-02, 1.355449134180845561e-01, 8.807325470768048170e-01, 5.115594642330744124e-01, 4.025039709409334310e-01, 1.813380618684915513e-01, 1.297023091671473394e-01, 3.135300312081034102e-01, 2.616069963274161858e-01, 3.189483648304393126e-01, 5.434289424396708812e-01, 2.159577802082724984e-01, 9.161598850790564352e-02, 9.529196519835215762e-01, 5.324083026247842243e-01, 6.372149686546587644e-01, 3.448724979442981953e-01, 4.115808974638029971e-01, 3.638414032114454799e-01, 2.916239833498303624e-01, 6.226871942630278767e-01, 9.338624241633976253e-02, 4.891122744291767632e-01, 6.069523965842197333e-01, 5.956029831230656990e-01, 6.097907442844683334e-01, 9.543648552652411743e-01, 9.967933302744563795e-01, 2.419307608768591633e-01, 2.266329414679627563e-01, 6.865889764948506224e-01, 4.891211678583680111e-01, 4.497396942089038063e-02, 8.346371596085557787e-01, 8.742174024517873621e-01, 7.646625913304856414e-01, 1.289185219127469972e-01, 5.579541277840039948e-01, 7.325194858926676877e-01, 7.121659006747216303e-01, 9.486528684576903681e-01, 1.689317383960055596e-01, 8.175776656931645903e-01, 1.123208036254599862e-01, 3.295776137309272547e-02, 2.899042007185830272e-01, 6.812601365034223200e-01, 8.086477936402091116e-01, 2.384266427082410156e-01, 8.821880104111423648e-01, 9.068568991071237484e-01, 9.361754765352984231e-01, 6.881955713922977003e-01, 3.851016600627132358e-01, 2.720740572601503815e-01, 4.429030961588725224e-01, 3.071518766397046130e-01, 9.924970289776037513e-02, 4.450825239918215076e-02, 9.900138440939583173e-01, 3.345048193082313381e-01, 7.497792262026382604e-01, 6.938232485409170369e-01, 9.069906663392214297e-01, 2.932818293689823386e-01, 2.370469609728630481e-02, 8.810490777611776902e-01, 1.451007192383216571e-01, 3.852322089135866157e-01, 7.951879296542290199e-01, 5.413117199554686731e-01, 8.386996636354818735e-01, 2.053778330158013976e-01, 9.662645595374357022e-02, 5.840096838409721824e-01, 8.132268808659498527e-01, 5.977301465942634895e-01, 6.235458696473460405e-01, 6.497139547097394718e-01, 2.902626358935528339e-01, 7.324928949068657547e-01, 5.326900228015942762e-01, 3.273726616176656501e-01, 2.372436428188268442e-01, 6.148408242627336623e-02, 8.166120768303056776e-01, 5.010812438972064298e-01, 5.343506382462817061e-01, 2.932292543215375136e-01, 3.936749207518447369e-01, 7.523919575039538232e-01, 6.084568937695885582e-01, 2.354567762561318722e-01, 3.447578498299470606e-01, 2.638260533736093150e-01, 3.553384051744408190e-01, 2.550072630270962537e-01, 4.915724822980286346e-01, 7.079100039953326595e-01, 5.815167511247305576e-01, 1.666158454469195971e-01, 7.448933331795939417e-01, 4.334112041461342102e-01, 9.423884258281439719e-01, 3.896281714664577844e-01, 4.721022359224320564e-01, 5.515999563490049384e-01, 9.491719150867264920e-01, 5.373388470871424127e-01, 3.523663167066291568e-01, 6.275237311447117161e-01, 9.082973958226715494e-01, 9.353044965155259405e-01, 5.368699558187126630e-01, 2.592596720924359444e-01, 8.084558261333697482e-01, 9.626602704271761679e-01, 8.945820550864352905e-01, 8.043680909324590900e-01, 3.412640594841523378e-01, 8.143853471987568329e-03, 7.841820503614259641e-01, 5.856841896032209949e-01, 3.930480395488881173e-01, 1.637498901321105815e-01, 1.114557520612816793e-01, 3.081914869816788638e-01, 1.504950030022234875e-01, 2.600587119789373181e-01, 6.457876413206574406e-02, 3.635576381869652651e-02, 8.740645825126522883e-01, 4.353728522375702736e-01, 6.835058704577667843e-02, 6.854170852264571678e-01, 2.610035672712047727e-01, 8.542382595272477452e-01, 5.581872721172952412e-01, 2.251355929859940042e-01, 5.690112807167061471e-01, 9.401856406468033223e-01, 2.004390672818283925e-01, 9.404283566455393650e-01, 5.145241950470025305e-01, 5.563937892620787196e-01, 5.276588311882719484e-01, 4.034165757984611855e-01, 3.952552817836008647e-01, 1.641605501674954504e-01, 6.328917262745952232e-01, 4.222852475881044287e-01, 2.090597425027168055e-01, 2.514843966090621885e-01, 4.294932065421194073e-02, 8.560752928749273405e-01, 3.438731220011415068e-01, 4.907670091801960566e-01, 8.912546433381822730e-01, 9.752175301200068924e-01, 1.022013215452054063e-01, 7.116292411859156397e-01, 3.357402341838656157e-01, 5.964036507554300037e-01, 6.667764401172208144e-01, 2.297352787677651442e-01, 4.404038361637298005e-01, 8.349685678221349105e-01, 8.820217097761270386e-01, 9.601361671288664024e-01, 9.575255256318311314e-01, 5.585790922662038360e-01, 2.931671677605772741e-01, 9.067991818922181979e-01, 1.920401450749748273e-01, 4.441754592656766421e-01, 4.948608366160237582e-01, 2.027442859309598333e-01, 2.252032312874469588e-01, 2.923600804462862524e-01, 6.319836427268552548e-01, 9.162043205739647256e-01, 5.546458406388506956e-01, 5.864786184243557798e-01, 8.874564388533727755e-01, 9.232707219065735549e-01, 6.701153616614988762e-01, 7.031673474325125621e-03, 3.212306520627148942e-01, 6.642921150329235136e-01, 9.484623254505132328e-01, 5.687801993965833081e-01, 8.839503782068709459e-01, 6.342643116084267785e-01, 8.587839326716993904e-01, 9.198885080875323084e-01, 8.882573943771775449e-01, 3.670289066125946298e-01, 9.961414409397924274e-02, 2.158192981062974636e-01, 9.859163627493100490e-01, 3.095066515015053032e-01, 5.026696809653942166e-01, 2.668583284305673931e-01, 7.189266021778238924e-01, 4.756363582320562999e-01, 6.275296342527655336e-01, 4.172187366814235632e-01, 3.133266397120846869e-01, 8.234778260710795550e-02, 3.508998848760001565e-01, 9.339147814369159750e-01, 7.670731629082228054e-01, 8.472645118672020303e-02, 3.133777989361930527e-01, 5.509888405212760576e-01, 2.836456856197530074e-01, 3.041196629915467464e-01, 6.682462129754528357e-01, 8.698752005098887574e-01, 5.353041640732580930e-01, 4.419427862724256695e-01, 7.157533012007333273e-01, 5.317433487943650228e-01, 1.518052482450373553e-01, 4.405926549072809451e-01, 7.484010794320538063e-01, 2.603263807011908515e-01, 3.848966182142450343e-01, 9.984669191332799787e-02, 1.934135294957400886e-02, 2.378446324114250332e-01, 3.311243530160190018e-01, 4.183642186516420836e-01, 8.545391906411046179e-01, 7.197518880770301664e-01, 3.742400962728084091e-01, 8.267225419831074618e-01, 4.952528649953784612e-01, 2.219611821490422299e-01, 3.139136514414895829e-01, 8.484047884364845915e-01, 3.066524980709021686e-01, 8.672740790654992482e-01, 1.743851941349066070e-01, 4.348587090670595345e-01, 8.330762823990927046e-01, 1.431788163295979743e-01, 5.160724984477313981e-01, 2.529592296176944588e-01, 4.499075855087482367e-02, 3.601725288888049104e-01, 8.700271320099209893e-01, 5.083374770114290619e-01, 4.228111322196091981e-01, 3.116744563790378453e-01, 9.211076395754258517e-01, 5.969706401509511373e-01, 5.209880322753284165e-01, 9.672839851929029287e-01, 9.264355547753827524e-01, 9.272891089881959426e-01, 2.267965390338241294e-01, 9.785749263981036172e-02, 1.838909277462007497e-01, 9.216774094723865218e-01, 5.655586861887145211e-01, 2.120285137568023448e-01, 9.593180672369820972e-01, 7.950839361660523297e-01, 2.185996456538496515e-04, 2.469968375480079137e-01, 2.107191572821605630e-01, 2.974861586175963080e-01, 9.867989095248160814e-01, 6.582384306104951399e-01, 7.024204112992740168e-01, 9.230462749350835105e-01, 1.690422640953460620e-01, 5.431792759106442992e-01, 9.950570059663842448e-01, 7.804740244847676589e-01, 5.553674342424245181e-01, 2.934213866193204900e-01, 4.954043304833202210e-01, 4.065205748679029396e-01, 9.364596325376270958e-01, 3.665310436758244528e-01, 2.540222671004379595e-01, 5.597362366626686958e-01, 4.040339054332264257e-01, 8.552923411705682932e-01, 9.493557856489883706e-01, 5.610453982552489061e-01, 5.971354266569500746e-01, 2.592749512830921921e-02, 7.075976447100904565e-01, 1.826786153926341361e-01, 1.858110394103814622e-01, 9.615206699239929877e-01, 8.147386135761365278e-01, 2.457383737104098520e-01, 8.360059485915889432e-01, 7.168599095573155999e-01, 8.488238975215438575e-01, 7.765165193617968864e-01, 1.761461474784507264e-01, 6.385457265184943942e-01, 7.774287229235925523e-01, 9.673176495940593034e-01, 5.188918251740857190e-01, 6.199433850293464277e-01, 9.960334088612177172e-01, 8.051225999473345940e-01, 5.189860821501874888e-01, 1.987943342731562091e-01, 5.474999247677804215e-01, 2.931973748761391718e-01, 7.007188767113625705e-01, 7.828634591476862914e-01, 3.982794166494722510e-01, 8.184309338373633169e-01, 2.329383194755636488e-01, 5.401213340687686104e-01, 1.125936608494327029e-01, 1.418080027107306018e-01, 6.905437846224730114e-01, 2.418091421855559642e-01, 8.477508417177406219e-01, 8.197983542698282777e-01, 8.406127816925603735e-01, 7.112974657433580594e-01, 6.203541212972799590e-01, 6.018105011115605363e-01, 6.725848658383787315e-01, 3.158484316806208780e-01, 7.029607954863372754e-01, 1.354012320693075144e-01, 3.594861953725276837e-01, 7.971415906622695280e-01, 2.989010723250069557e-01, 7.364066506749520347e-01, 5.984467151253918260e-01, 6.373419510048687897e-01, 2.876518640971250651e-01, 8.111899173651409001e-01, 5.146075554334370583e-01, 2.198157392084032768e-01, 6.774497175662745896e-01, 2.818731288579269870e-02, 8.942356974991584329e-01, 2.436499890268714330e-01, 6.518943305444778735e-01, 9.081788733510265388e-01, 6.777870885084107400e-01, 4.437371978572693387e-01, 3.755012337579951009e-01, 2.437437988107828413e-01, 3.979341010776029086e-01, 4.626223703954360222e-01, 7.254793054891124360e-01, 7.563142872546960160e-02, 2.130623329137348865e-01, 6.421577830297539036e-01, 1.969277969640678139e-01, 6.649827398053214100e-01, 5.686991099700241525e-01, 6.182532562934187625e-01, 2.192183158046893676e-01, 7.766683868733144092e-01, 7.513366938609512824e-02, 3.540971954353930307e-01, 2.039802843107163810e-01, 8.099497451861731312e-01, 4.018206071868049012e-01, 6.667317213614121219e-01, 6.505737022632338551e-01, 3.901406800312285372e-01, 1.615056392879122282e-01, 8.425375103925497600e-02, 2.210220283332261365e-02, 7.976690625757504316e-01, 2.080582108905655314e-01, 4.617658473698407935e-03, 9.228259276260497579e-01, 3.031459534506302234e-01, 7.201684354124561205e-01, 3.305606195801059632e-01, 3.894360525565630504e-01, 5.641506810722330956e-01, 8.831856977473735437e-01, 9.683223956191015780e-02, 2.560981400893045934e-01, 6.919593006977790006e-01, 4.182613102891563073e-01, 2.089749525867420910e-01, 6.884447337309484993e-01, 7.213533093332669122e-01, 2.570616871080040888e-01, 4.227110541508263264e-01, 5.814141156778113162e-01, 5.007385163016363494e-01, 5.553495857018914128e-01, 5.780184463899559200e-01, 7.543696551564997854e-01, 4.958481517659598659e-01, 7.494230241751884680e-01, 5.370071096005585298e-01, 7.380745501288730193e-01, 8.234904774732216826e-01, 8.456937885366107022e-01, 4.581671371702101259e-01, 8.021526754532259940e-01, 6.903374052307057473e-01, 6.629603630858209584e-01, 6.266066478656223682e-01, 1.521456241991021308e-01, 7.061962553542252552e-01, 4.134449292923258468e-01, 3.469326407992754518e-02, 3.755382621076912009e-01, 5.432277030528482875e-01, 7.150204253446055258e-01, 4.305638060995868877e-01, 2.230284416666022673e-01, 3.014957889277340986e-01, 4.055300648898248206e-02, 5.724812562364633983e-01, 3.974258613957117325e-01, 6.585707948751347018e-01, 4.752769664790845727e-01, 1.446411910605447382e-01, 1.030714024709543930e-01, 4.006094765421854692e-02, 7.253123099238295568e-01, 9.020629250242954145e-01, 8.732743249576753186e-01, 9.749052414736949501e-01, 5.429813480872428544e-01, 5.552964557851882560e-02, 3.592796603593420013e-01, 3.218005269331820628e-01, 9.884458655370552405e-02, 5.548045794589895330e-01, 7.330190289940692605e-02, 3.256180360759489134e-01, 6.525180485207969783e-01, 2.767513747685049763e-01, 7.874902936100893758e-01, 5.938838905459323803e-01, 2.154231667273474593e-01, 5.266946725950605313e-01, 3.812089604800296405e-02, 3.178057197564652103e-01, 7.235195406224573800e-01, 3.251241115518966329e-01, 7.273777159681787952e-01, 3.096177252032481508e-01, 2.474951463662458107e-01, 4.572381145623978238e-01, 6.697309067414400907e-01, 4.609485307842575708e-02, 4.334390911798259305e-01, 7.872198549110415167e-01, 7.798035883087339748e-01, 7.620874696884394339e-01, 5.727970523043013351e-01, 7.668556648603691572e-01, 5.877996032707927254e-01, 5.013882435025875800e-02, 1.729995953816965693e-01, 8.735319874186666667e-01, 6.001362934296943230e-01, 7.792112983410187654e-01, 9.777915735361142335e-01, 7.815253855968851138e-01, 6.213354674177961057e-01, 8.866824899603190646e-01, 4.821885923657412421e-01, 3.570563196132272021e-01, 4.571505813495049253e-01, 5.151973124449070740e-01, 7.166202406842264727e-01, 1.376071748167326247e-01, 9.471718082832160102e-01, 3.948474701597180503e-01, 5.348160414346792013e-01, 9.489701870568547637e-01, 5.520464371350881638e-01, 7.525795220598363588e-01, 2.439482410241803623e-01, 4.409083121634727598e-01, 9.424011795844445816e-01, 7.951935149177581375e-01, 2.913435752654888189e-01, 5.930885404261484473e-01, 8.626221144564671928e-01, 7.878603109131372406e-01, 6.459399975178853337e-01, 9.971118377755628925e-01, 5.227704436065923055e-01, 1.916609686390465250e-01, 5.905755735917339599e-01, 6.022492066519811171e-01, 4.197273418930841382e-01, 5.365647891719794726e-01, 2.222949596048719723e-01, 2.945170288064948624e-03, 1.625135401440482852e-01, 2.238334530441506987e-01, 1.288934968834930250e-01, 2.531662490738936788e-01, 4.787381192071187841e-01, 6.135874566553081028e-02, 1.629417228677456086e-01, 4.034085241309682268e-01, 2.271241966024443171e-01, 5.895760846819511070e-01, 9.134224970553604939e-01, 9.283906104924553038e-01, 1.157920380815663786e-01, 6.448453204920786552e-01, 3.173709906600632458e-01, 5.171709730008392514e-01, 2.801295563544394240e-01, 4.582108119034655758e-01, 1.020857180622387755e-01, 9.294181525106987030e-01, 9.186524290564468398e-01, 7.022471218371009183e-01, 6.167199000118744889e-01, 3.216692759973672211e-01, 8.435358375473109849e-01, 6.564424946909946934e-01, 8.726543841569931459e-01, 7.887057372716544945e-01, 8.951532727864618399e-01, 9.566923132009262642e-02, 3.705058395061743282e-01, 1.796605601773947625e-01, 8.898430281871195779e-01, 1.148504404818731115e-03, 1.755916307501710349e-01, 5.997488376685304878e-01, 6.134890650234821052e-01, 8.170306024120287391e-01, 2.727871634584348726e-02, 2.540767671418716622e-01, 1.203142368055456629e-01, 1.106451180039591115e-01, 2.067447369413993527e-02, 3.405869747840167827e-01, 8.209485579455704229e-01, 2.332063241991131908e-01, 1.962167034785919917e-01, 1.666029267337889863e-01, 4.686682454080421945e-01, 3.070410967404758606e-01, 7.365656795066343188e-01, 8.060521726641065587e-01, 6.348433777099504738e-01, 2.656995692290055056e-01, 4.637109787715863463e-01, 7.212117035427870748e-01, 2.841677219038144311e-02, 9.162474375785141234e-01, 8.674560706171672297e-01, 4.062119774530249805e-02, 4.942082278314308130e-01, 1.484314336984325355e-01, 8.830340234479379102e-01, 2.481805788870037055e-01, 9.786880467157708097e-01, 7.519446031285375032e-01, 8.733431376432576609e-01, 3.380779656510363163e-01, 3.243114516173073447e-02, 7.064628499443059706e-01, 3.450208295857777885e-01, 7.696278118603254725e-01, 3.042857552354127360e-01, 8.509788287341815138e-01, 7.994773429713375457e-02, 2.109245103475090866e-01, 6.755081150615857566e-02, 6.152467775411089856e-02, 7.593589903631294824e-01, 2.845904649488101637e-02, 1.851688500931245596e-01, 9.496055125008042719e-01, 2.689307040134684690e-01, 4.451977181399202621e-01, 8.033565643631243591e-02, 5.903374067503986966e-01, 7.126023934171141910e-03, 8.950784986008563093e-01, 6.460392386748735616e-01, 6.398970439049950221e-01, 7.176904029632731330e-01, 5.478004305411587893e-02, 3.522547219937705587e-01, 9.039738003973237790e-01, 7.591996228024989746e-01, 8.556543637232657540e-01, 4.015299861803402481e-01, 7.621048340715046443e-01, 7.993869884417026395e-02, 9.453660612062030344e-01, 6.674778418447879780e-01, 1.529258623299489250e-01, 9.907287404933444730e-01, 8.373558390646941296e-01, 4.201166433955261237e-01, 1.281314253674898096e-01, 3.143800595270535014e-02, 4.314845263026395039e-01, 5.270373035922661931e-01, 5.932051635349077090e-01, 6.170742364914981737e-01, 4.055319331750656398e-02, 7.772604213520682981e-01, 4.341459836548685614e-01, 1.433301732614456203e-01, 2.753672451413663458e-01, 7.622921308788218608e-01, 2.181874342052429749e-01, 9.974015374075124729e-01, 1.888435182481930097e-01, 3.907065826540003783e-01, 1.834861197751415096e-01, 1.555034109313201962e-01, 3.885127788645430513e-01, 8.676386191134740633e-01, 2.654957716322151606e-01, 6.500072958147888880e-01, 7.592581983552683100e-01, 9.892861407128050732e-01, 4.955493868919718659e-01, 1.422213454337994121e-01, 9.578018458077248720e-01, 3.837199436850641798e-01, 7.431714861709604047e-01, 4.876286064234340856e-01, 1.974772155935250184e-01, 4.698952834265124889e-01, 1.797516940325912527e-01, 9.528811621610183691e-01, 1.243884316107940896e-01, 8.344511194242987262e-01, 7.768420495562227135e-01, 1.984623792618460669e-01, 6.733846189159199414e-01, 2.470397048291856912e-01, 7.874135558286250447e-01, 4.639462144842610575e-02, 3.192516722243970984e-01, 6.312205742554075627e-01, 8.427628961738306557e-03, 7.019594873831739301e-01, 6.282323118545891649e-01, 4.452612704980549729e-01, 3.954221156940342929e-01, 2.067253821202226227e-01, 7.584478553882265661e-01, 9.566372498191562102e-01, 9.032497234629076610e-01, 4.906871291203205865e-01, 3.047206753467909812e-01, 8.450175531280053054e-01, 6.180806709146556832e-01, 1.373308700906970548e-01, 5.740181607707882661e-01, 2.205119885602428997e-01, 9.056365677884041787e-01, 3.283155558256111717e-01, 9.124481330814010471e-01, 6.311244895400371924e-01, 9.449338821504187080e-02, 1.890168266332843405e-01, 8.224957999805034836e-01, 5.932962052355124083e-01, 1.501482698670092708e-01, 9.107563200631966227e-01, 2.511490560668179217e-01, 4.229807054675742417e-02, 7.438733057744327803e-01, 2.514350152056002430e-01, 2.784602069548168246e-01, 7.641741302526050550e-01, 1.246829026409191077e-01, 8.885696299107239682e-01, 4.105212091297534283e-01, 9.681959846378656032e-01, 5.388191027742271766e-01, 5.455564047799037475e-01, 7.063587961626293099e-01, 5.056078617382536722e-01, 6.240876845502878467e-01, 7.564841243181426034e-01, 9.656926360194959535e-01, 1.802860637662047072e-01, 1.035739914097090209e-01, 6.212912138710678933e-01, 4.026979815960124998e-01, 6.320279766069742955e-01, 3.256943193778167323e-01, 3.764924083719657366e-01, 2.603748836593245408e-01, 1.682742027532739271e-01, 9.421603487603691374e-01, 6.098931810159563538e-01, 1.476616531806657362e-01, 7.884559639864979763e-01, 1.154657809666417151e-01, 3.783014515288959934e-01, 1.493759894454427528e-01, 8.602251845825745757e-01, 7.099836183515802202e-02, 5.389174440325166238e-01, 4.757014157029965662e-01, 4.432765389727914007e-01, 9.211711444493068113e-01, 7.664274982354204457e-01, 5.777127888686858781e-02, 2.754517066704867956e-01, 7.853324208362140110e-03, 4.137903285876499276e-02, 8.063104701165656474e-01, 4.166943868219228353e-01, 1.265076578171689115e-01, 4.498040741643432594e-01, 2.237680152906772191e-01, 7.075791993901409116e-01, 4.555423563143832788e-01, 9.351662451218042404e-01, 3.433878912803305372e-01, 1.393092861042025954e-01, 3.513709406936896262e-01, 4.372411531779478722e-01, 5.021231370531467064e-01, 6.306572343630665323e-01, 3.115457140097450950e-02, 8.496627730544847878e-01, 2.104291915053376205e-01, 2.806378764951622529e-02, 8.226845071019498468e-01, 8.086526346895438477e-01, 4.610811379399857302e-01, 3.394969421098916751e-01, 3.817322799768804731e-01, 1.509615454490641495e-01, 1.724322620609869128e-01, 9.239566351011643253e-01, 1.187368637477471817e-01, 2.893516431683913481e-01, 9.014721884426490917e-01, 3.419754369145503459e-01, 9.356758921650533134e-01, 1.271874940998874437e-01, 9.224561424204602567e-01, 3.294070477710352440e-01, 4.430662758584086314e-01, 9.797942809055009139e-01, 3.849764803396922286e-01, 4.881948217887348562e-01, 5.503600595286848307e-01, 5.795833362874887040e-01, 3.758596567608125105e-01, 2.296534213758824883e-01, 1.842792070578424535e-01, 4.127085236440346527e-01, 4.723746117905326392e-01, 6.326914851844012144e-02, 6.811030561055400057e-01, 8.089663567684123313e-01, 2.896347998039143223e-01, 1.471372478612625878e-01, 2.039128327375933913e-01, 2.195833302337421578e-01, 9.060707770449920595e-01, 5.475832935751320241e-01, 2.131527094239170916e-01, 3.685306050511314990e-01, 4.576244030233156956e-01, 5.230586229311343649e-01, 1.764236906374813951e-01, 5.987670773188372708e-01, 7.163492429529308980e-01, 9.853850629957759677e-02, 1.107373617557646794e-01, 6.027761445696990794e-01, 9.820326287511860208e-01, 1.480818595123035986e-01, 7.396706354164401809e-01, 6.177652106575372004e-01, 2.421346671665133288e-01, 6.342784111717214568e-01, 2.825048037119495120e-02, 1.500729257131703243e-01, 7.110153817280409072e-01, 4.350553290079837709e-01, 3.099828873823030073e-01, 6.518591919347510588e-01, 2.095006919494208086e-01, 3.513052307406387409e-01, 1.594589198434202271e-01, 7.665762346530283766e-01, 5.510588087441425920e-01, 2.720133554140858334e-01, 7.168862623646585219e-02, 1.223086584174266217e-01, 2.274588958297500685e-02, 7.252450485230190758e-01, 4.318290062618355130e-01, 5.787506650488667415e-01, 1.924077496618666894e-01, 8.655583674428130037e-01, 1.497851282929477945e-01, 3.265692088870444931e-01, 8.168028859459126600e-01, 9.795970276858029235e-02, 3.846373682875880995e-01, 7.111788247607153668e-01, 7.158112603892323733e-01, 5.161690016399509418e-01, 6.063737807015412429e-01, 1.728895601277594118e-01, 4.972299030327163027e-01, 6.928674322729656554e-01, 8.496585326960512941e-01, 5.325597159668902236e-01, 1.340115575447211049e-01, 5.083255457249219456e-01, 6.347522664967039097e-01, 1.633576626896753384e-02, 3.106841663323868241e-01, 2.088407180104551453e-01, 7.025187155298578956e-01, 2.481254544810967133e-01, 3.915865162513773035e-01, 9.211228740797772208e-01, 5.123989912255273449e-01, 3.856836667719018563e-01, 2.563904085448339143e-01, 6.055697236443512432e-01, 4.308693365341812950e-03, 8.846398535626417425e-01, 3.409563035784822227e-01, 7.147472532973596637e-01, 8.223516848021201753e-01, 8.355093553143257135e-02, 5.506974400881826659e-01, 8.933308333984394389e-01, 7.983633662474662884e-01, 9.473178777015895946e-01, 4.924858009319549867e-01, 8.769799338800217114e-01, 8.633790227407023288e-01, 2.505411791911627550e-01, 2.870708306065795079e-01, 5.152167309238563364e-01, 4.327934752176876287e-01, 2.314125841686843210e-01, 5.413763712940407036e-01, 7.623106766705993742e-01, 9.253772482544458944e-02, 1.301767984588323157e-01, 4.719363496679457870e-01, 9.802753653973790282e-01, 4.744676879101925732e-02, 4.195517807119898968e-01, 1.301932766411350306e-01, 7.812428300587758168e-01, 7.010493392262320267e-01, 1.825938994351174460e-01, 3.434627355924432801e-01, 4.668100094045848913e-01, 8.472781782404322781e-01, 1.299565527389328068e-01, 7.847791342930565683e-01, 2.443104960348247146e-01, 9.716141764946023551e-01, 1.450999706264905487e-01, 8.076057573390469368e-01, 9.210959685546978859e-01, 7.149421027393477734e-01, 8.544980220652594882e-01, 1.587617952272304400e-01, 9.457089718842887072e-01, 3.269296040342893339e-01, 9.196556895533715137e-01, 5.541299526873652015e-01, 1.968120051669277892e-01, 5.714172276402733619e-01, 7.703880259376735262e-01, 5.062281232132253006e-01, 5.716607507374126262e-01, 1.127283989987660773e-01, 5.086808640286619720e-01, 3.353299910819687035e-01, 8.827443075849318310e-01, 4.715029184158162634e-01, 6.546673121521561223e-01, 4.005192582523243727e-01, 9.936608678622926849e-01, 6.672939503146303464e-01, 3.926330983666781460e-01, 1.822478944117954525e-01, 3.637390288373967828e-02, 2.471009004313520219e-01, 7.186344097511961904e-01, 4.194767107491927383e-01, 8.511757560542511092e-01, 9.973291942736084437e-01, 7.499037944490177798e-01, 5.510579009353487878e-01, 3.666950970508633389e-01, 5.158800156639949952e-01, 9.694682382484840488e-01, 6.522465897945296520e-01, 1.640626767570867450e-01, 7.233233804991646698e-01, 1.782904826033681611e-01, 1.225791271457790793e-01, 5.874200079749879455e-01, 3.153186346514261218e-01, 6.568078967371165922e-01, 7.876536056286994603e-01, 9.808098738806734218e-01, 8.172860757774798035e-01, 3.429247095398942902e-01, 6.354427191091939209e-01, 2.433899768637855510e-01, 7.212745491695103928e-01, 7.517491725845858452e-01, 2.974702750173676136e-01, 1.167073085564063889e-01, 9.010460626116768568e-01, 9.397047673113982924e-01, 2.750582840171047483e-01, 7.913612565053396164e-01, 4.337799430536461859e-02, 4.864776841070039270e-01, 4.504565178125010672e-01, 7.428619185115491463e-01, 8.375581892947131513e-01, 7.350680536832271406e-01, 5.196134896970543426e-01, 8.858734305123318054e-01, 6.835712434027284568e-01, 1.473152334678949904e-01, 7.147336143728435509e-01, 3.227366900577735565e-01, 6.251006403444443471e-01, 2.166856288106797368e-01, 8.450845183223926194e-01, 8.011108359001225532e-01, 6.855931859524765359e-01, 9.637809572377245004e-01, 6.639925950241565289e-01, 9.301398893232051268e-01, 5.501013814588615602e-01, 5.010217655956974436e-01, 4.472291665623479018e-02, 6.032087898769884077e-02, 9.268934536949019476e-03, 3.054380578964466797e-01, 7.387383332566432870e-01, 8.597436375002154296e-01, 2.459643684729499735e-01, 3.046790636761550347e-02, 5.741038188056813985e-01, 8.368355739529717008e-01, 8.758099448862916026e-01, 7.921570842549806590e-01, 2.267940017702375077e-01, 9.148724196947188858e-01, 2.422109179294080206e-01, 4.302801601555957811e-01, 6.381557619179556440e-01, 6.872195573743845876e-02, 6.950129877555606406e-01, 4.179201004147958254e-01, 4.795044804307991293e-01, 8.911275217146190641e-01, 1.800611522679109733e-01, 3.225626018482738444e-01, 2.798750480493782944e-01, 3.657857866533452129e-01, 5.270633675048508326e-01, 1.833439115947498033e-01, 6.626845195091589369e-02, 5.610676892749680844e-01, 4.270516532475785443e-01, 9.831514125361814349e-01, 7.064686393266739195e-01, 4.971267659393153182e-01, 5.057853831558797308e-01, 7.418674121280727229e-02, 8.091749072421109412e-01, 5.416573475676724758e-01, 8.204298390714308553e-01, 4.427544399156755905e-01, 5.236802297331244471e-01, 4.053403213420019857e-01, 5.338007427596513921e-01, 8.945739858448703563e-01, 7.890286727252906473e-01, 3.217683557609087863e-01, 5.212977842562471070e-02, 2.236445750856246029e-01, 9.166996847201276388e-01, 7.021931524109976674e-01, 7.389832316767598330e-01, 8.294672390757215075e-01, 7.795821493916662570e-01, 9.577556717405042441e-01, 4.559875436723678788e-01, 3.444583830950672665e-01, 2.793948497253508911e-01, 2.016987165318657738e-01, 2.206721871232741328e-01, 1.311852618007651461e-01, 2.307590614026002740e-01, 4.445431500506081407e-02, 8.181782049568735449e-01, 3.518429129068016969e-01, 2.989224589795358988e-01, 5.021254280672426962e-01, 7.164179355404826088e-01, 6.467357584004138626e-01, 9.241135787810030866e-01, 3.066528821597494514e-01, 9.992117050812134860e-01, 6.999932190632827123e-01, 8.530146193981378300e-01, 6.821829335452359588e-01, 2.720576330939122323e-01, 1.810882191695168397e-01, 9.307277462385257216e-01, 1.172412962751568088e-01, 9.119908018046215537e-01, 4.373172017948377399e-01, 5.834297334870017782e-01, 9.179072941829122256e-02, 9.504383920315323531e-02, 6.876116008837076521e-01, 2.141248959075511826e-01, 4.554546825251259978e-01, 6.373707062573130688e-01, 6.011311709572519923e-01, 7.032349599698894949e-03, 6.328308189229708836e-02, 9.240477277396288436e-01, 7.928385438632018500e-01, 7.763672542103345897e-01, 3.830648670559896884e-01, 2.492847033370447843e-02, 7.958830253010449329e-01, 1.698537436366415188e-02, 2.785113500197325398e-01, 7.119874143959136203e-01, 7.929249482423402773e-01, 7.629420888208824358e-01, 5.593246880467663829e-01, 4.729635426983810897e-01, 2.748221490832921665e-01, 1.314441840662099736e-01, 6.580151580994647587e-01, 8.454011538088834765e-01, 1.046810485992311496e-01, 7.960757260346646991e-01, 6.701004413553760530e-01, 1.736512589976582088e-01, 4.730884689232274787e-01, 5.980423062236082110e-01, 2.549903319854791572e-01, 2.158853788024906739e-01, 7.784521262847335921e-01, 9.120914590513403697e-01, 6.195677344082888283e-01, 4.867817872302991900e-01, 7.390687620239225764e-01, 4.509680603856876524e-01, 2.431284424905058028e-01, 5.983114666893333267e-01, 1.144059366529682764e-01, 7.109119350033327178e-01, 2.924098741477638985e-02, 9.146828786927163613e-01, 6.422552233185268022e-01, 5.201270488191047647e-01, 2.730770907183488472e-01, 5.381085304969991379e-01, 6.569219208501645424e-01, 4.890084768721631447e-01, 2.024173020523605537e-01, 8.989942159552692935e-01, 3.953172686812367886e-01, 8.210332974418386165e-01, 6.722068890417522147e-02, 3.085471959478524040e-01, 8.209806907623414807e-01, 1.373993789382857433e-01, 9.880623942789011904e-01, 5.199734542817974203e-01, 4.631222153652650442e-01, 7.580830248725285436e-01, 7.991163803770617857e-01, 8.018321945972392006e-01, 8.319663796249433529e-01, 8.532892461477151747e-01, 6.674271273734527776e-01, 5.914494306648232502e-01, 5.085374227684843484e-01, 9.708443993327929844e-01, 4.622135605044836448e-01, 7.067500649662618317e-02, 4.564401926138310084e-01, 1.369052476537960528e-01, 3.908761046427204344e-01, 7.266180365788903472e-01, 9.893864289489114894e-01, 3.308895251019019490e-01, 8.303102871420449116e-01, 4.825659636921544315e-01, 3.096065288849387254e-01, 9.271453227466096569e-01, 5.483549842882632364e-01, 3.382155224812702921e-01, 1.618861929495494234e-01, 7.209531768785363282e-01, 4.754518369033687297e-01, 9.389078043732353995e-01, 6.347266941902764970e-01, 3.334157814849313395e-01, 7.567997057565409857e-01, 5.334853216858447267e-01, 7.213507646014408747e-01, 8.292743636477266644e-01, 6.064364719524130143e-01, 3.475961269257709652e-01, 3.186095450637030368e-01, 8.976417388913149331e-01, 3.432854606304017731e-01, 9.857054124313839871e-01, 9.781524158028638560e-02, 5.252823233798626923e-01, 3.950095693236105876e-01, 5.869072650017119752e-01, 5.467402905422643622e-01, 3.680044888192415264e-01, 2.819161665109166590e-02, 5.220472816215547818e-01, 3.412450337689404423e-02, 2.321565256050723003e-01, 2.461665727241266199e-01, 9.962012221661836753e-01, 1.993432082758153645e-01, 9.183657287946498382e-01, 7.748227599558539236e-01, 6.933929401898381029e-01, 9.827411750664625245e-01, 9.509921049357248357e-01, 3.403678657367376070e-01, 4.751012760693288373e-01, 9.179911291097269110e-01, 8.935258617090802158e-01, 2.745236841136977080e-01, 8.680678673174423432e-01, 7.197195251656479664e-02, 9.712851965500106655e-01, 2.021920561180181042e-01, 9.910703696967925191e-01, 7.547024689830014177e-01, 3.391835464012099011e-01, 6.082715638445984618e-01, 7.183621484588358086e-02, 4.354499160640069172e-02, 2.058736336415608725e-03, 9.859625709792654291e-01, 6.398634447860093166e-01, 8.363475423965860411e-02, 9.613661816642790070e-01, 5.090933787135264871e-02, 8.891105313976637170e-01, 2.954209369946171893e-01, 2.677107485887565974e-01, 9.344331909127403524e-01, 8.617063679431440359e-01, 7.549109541208340324e-02, 7.735426541055957506e-01, 8.654703373258918475e-01, 1.798630082785185880e-01, 3.969094728965148478e-01, 5.622364883288462067e-01, 1.103214384922866428e-02, 8.032414575231475729e-01, 6.872667374180062572e-01, 9.273365787359563184e-01, 5.256778281727731983e-01, 4.421933744539614519e-01, 3.062981661584112114e-01, 4.288364399840389196e-01, 8.120534768107832146e-01, 7.927765037325543163e-02, 9.476083261140945124e-01, 4.018321530232100286e-02, 9.470054945449051242e-01, 2.791890767681807772e-01, 1.415123219516132569e-01, 5.859736926126924983e-01, 8.328919055230975532e-01, 7.350758733772926323e-01, 6.261528171335938309e-01, 8.232912845998391349e-01, 5.809491756570130949e-01, 2.995600257987091064e-01, 5.486240166344862057e-02, 9.379384024555883492e-01, 4.111068186696017479e-01, 2.144299638239771932e-01, 6.622754439684863659e-01, 2.119226361289987259e-01, 3.713067550039573228e-01, 8.956161720947104499e-01, 6.803061547723846525e-01, 3.597399612780236566e-01, 7.317609927531778524e-01, 3.509619915810862634e-01, 8.566293112499194784e-01, 2.939465921037696661e-01, 3.148836759624106252e-01, 6.638070482161702035e-01, 9.284457487747213023e-01, 4.016870472205826825e-01, 7.496573031251442254e-01, 5.576528986971635016e-01, 6.286021642947867694e-01, 2.812630201450282419e-01, 7.530395630695161380e-01, 6.116534745626140968e-01, 3.536808894014595306e-01, 4.546488524979908630e-01, 3.495046865368568456e-01, 9.909553043485456181e-01, 7.620676112677557956e-01, 9.352357391869726699e-01, 4.148563678114810527e-01, 9.366239880381402871e-01, 5.196340153510813353e-01, 7.787826355694256186e-01, 1.849669422432897448e-01, 2.174261848936543950e-01, 5.482404044746672644e-01, 5.417819384304114472e-01, 7.719728981457120165e-01, 7.075177828932334156e-01, 8.220505106767849179e-01, 8.231273358812691843e-01, 7.505868240612011411e-01, 6.954212404232814615e-01, 2.307760335790503409e-02, 1.169907297933449747e-01, 6.766260696935397778e-01, 2.772663952152659150e-01, 7.833972273985657653e-01, 1.753228296422535692e-01, 5.927736638117708790e-01, 1.280280987847789986e-01, 8.604234808372070997e-01, 7.990399701464142579e-01, 9.239218680936478467e-01, 7.343389655111213221e-01, 1.886127239145857226e-01, 3.884391269182637663e-01, 6.960797075799042277e-01, 7.224663429821581717e-01, 8.600906547748600195e-01, 6.823129858264238568e-01, 5.762628860591576530e-01, 1.985442576330850861e-01, 7.350470833582777308e-01, 6.139798712002467740e-01, 1.368836269068001432e-01, 8.804215877105838750e-01, 7.850489611511431987e-01, 6.699697877730667606e-02, 5.755771475016044914e-01, 5.820325891731917833e-01, 4.831024761493693531e-02, 7.736575141353557727e-01, 8.562725310621930319e-01, 9.576928298179414600e-01, 1.368955863089008351e-01, 9.836073267863019165e-01, 2.833659581011406803e-01, 4.357844365349607396e-01, 7.027536017372387755e-02, 7.038971118399203197e-01, 9.358550354345843147e-02, 5.304449892585878512e-01, 3.608101161897791509e-01, 9.267290244428928458e-01, 1.125405766846900024e-01, 6.092924566480306670e-02, 9.283751752757006814e-01, 4.048087650842088214e-01, 1.063723254878863322e-01, 1.156314961435384314e-01, 4.879201890541722264e-01, 4.962453634386856938e-01, 2.969061558572363979e-01, 4.765247075073709149e-01, 6.043613188648486734e-01, 9.047840717686611578e-01, 7.079933104624062112e-01, 4.782686532680796576e-01, 4.612441367057069086e-01, 9.426724478708823352e-01, 6.152559242488053748e-01, 5.212606392299234948e-01, 8.053638349591741852e-01, 1.615863699019536859e-01, 6.918992878844530958e-01, 6.408244001257552558e-01, 1.421455574681051992e-02, 1.475469207962383789e-01, 7.739325033510133789e-01, 5.343688564499132765e-01, 1.548374200579130111e-01, 8.415083853169927908e-01, 9.551642061996750144e-01, 3.289511145586664909e-01, 9.473416674294639073e-01, 9.343544191073910321e-01, 3.436419073758866238e-01, 6.035675216451266145e-01, 1.079290159301601881e-01, 2.083859139217367207e-01, 5.530932979523079940e-01, 3.231062454279931551e-01, 8.873239030989837905e-01, 4.169785763800055722e-01, 3.493269287062442108e-01, 6.341590562347879656e-01, 4.455859965411710921e-01, 3.494089985457677350e-01, 9.250011521876688736e-01, 2.628942974644049579e-01, 6.555914562829834313e-01, 2.775541026680392043e-01, 5.099742744861454069e-01, 3.769360033565090640e-01, 1.426614391354594780e-01, 5.680213267065358229e-01, 1.928262301408685264e-01, 5.311170317488271841e-01, 6.938901686255438683e-02, 7.330095687313116226e-01, 3.458914413964516710e-01, 9.310315996786784343e-01, 1.656101145125357388e-01, 2.893166975435000343e-01, 9.591030326576719389e-01, 8.019919427070546503e-01, 8.162468753201548299e-01, 2.763418923477765632e-01, 7.162645287021884855e-01, 3.741597009876558855e-01, 7.960992029227275113e-01, 8.633781302733921637e-01, 1.942102456110716968e-02, 6.116070995666331722e-01, 9.302217787110087510e-01, 2.776082723093902249e-01, 8.876433088017761097e-01, 9.325870235601099734e-02, 3.995938186690639604e-01, 1.891404165938706250e-01, 1.372732635884426899e-01, 8.352766349950176972e-01, 6.620130103510954989e-01, 9.451863444425560035e-01, 7.447643005528258309e-01, 1.447099263134816183e-01, 8.007863329917483952e-01, 4.259154314167968303e-01, 5.558144886941388668e-02, 4.573211791604081533e-01, 3.139648333118098544e-01, 7.287675077346091046e-02, 8.231327061239600562e-01, 6.978918970294155644e-01, 7.811884210180886079e-01, 1.222562141012988185e-01, 6.352121310771060569e-01, 5.897774785985163692e-01, 6.915112142173917009e-01, 1.170272709827685637e-01, 5.408430163634779797e-01, 7.240220059322300949e-01, 7.714971416144726923e-01, 3.066186921010033428e-01, 2.959335059248043298e-01, 3.877896629336686218e-01, 5.689425079960113568e-02, 2.023675058834824014e-01, 5.521467391100212119e-01, 1.123462336579697934e-01, 9.731817254618491120e-01, 7.064483906692032855e-01, 6.534176355568442895e-01, 9.412532062336314009e-01, 1.002127726280706982e-01, 8.633468451619398243e-01, 3.616318625057067804e-01, 1.409981539979025533e-01, 7.530571875723347519e-01, 1.620203415688309112e-01, 2.975351431892657161e-01, 2.297289610976888385e-01, 8.351533706236675680e-01, 8.060002069408608860e-02, 6.317316431255087794e-01, 2.664843537559088982e-01, 1.831184338092013975e-01, 2.362027791201765092e-01, 5.987967631314851102e-01, 4.941445378859388726e-01, 3.080226925686387895e-01, 7.559590988930748878e-01, 5.172514746480404435e-01, 3.415665624111835497e-02, 3.456568279378242070e-01, 5.622714019802125263e-01, 3.057930587564448577e-01, 8.572841345510745503e-01, 3.118142794555908148e-01, 1.341072971127521829e-01, 7.283896868581850592e-01, 1.780062402217857387e-01, 1.629855280420042796e-01, 9.055682327672088805e-01, 2.143423030422061948e-01, 7.607032087717142954e-02, 8.257687778874223117e-01, 7.872390943983862410e-01, 4.523125701732835097e-02, 8.844944305683254404e-01, 6.505287219461525217e-01, 5.134404549262783224e-01, 1.258167097324134898e-01, 6.178534795058399087e-01, 4.166598373485022044e-01, 1.419528360960638225e-01, 1.889925001996458909e-01, 5.836111948596631877e-02, 9.658273700733949196e-01, 5.574198669165235653e-01, 8.770984469212776968e-01, 7.842526808818482964e-01, 7.061208723496544826e-01, 4.943792832996402598e-01, 4.766994250017581036e-01, 1.794972532623209660e-01, 7.109935448658464274e-01, 2.069558577592352788e-01, 9.614631992921386650e-02, 7.937774143363993673e-01, 8.459808734388822860e-01, 3.992658586784290919e-02, 3.066146779234948938e-01, 1.224036284980479505e-01, 4.196520481709713479e-01, 4.573141512265553321e-01, 2.432074059877692429e-01, 8.931040848956370293e-02, 9.985340422894594115e-01, 5.671802063660460469e-01, 4.980138289281536568e-01, 3.395929223735754121e-01, 9.967680056547462142e-01, 6.046270507998565691e-01, 3.680691876636100757e-01, 3.666115181707816362e-01, 3.369936854534381632e-01, 3.046415972418288765e-01, 9.155062888752734107e-01, 8.770172103684695242e-02, 9.634940546632925207e-01, 8.569409464466423154e-01, 8.878516240138781823e-01, 7.925911363769919671e-01, 2.454987567039842444e-01, 9.931484100738030563e-01, 2.282008594848551272e-02, 4.872497479191969516e-01, 8.040153679624154615e-01, 8.347047361219901429e-01, 7.849072215946829578e-01, 3.809687002829600933e-01, 6.973703330671630063e-01, 2.914853714654795924e-01, 8.608055700524384068e-01, 1.400302034425997266e-01, 8.905819330157916935e-01, 9.651966252156094286e-03, 7.305532662672261646e-01, 1.624541618873360793e-01, 4.303444492360134488e-01, 8.653709202284508573e-01, 5.437874730428039483e-01, 2.726822541300829572e-01, 5.805254705490001665e-01, 6.384610973530678857e-01, 4.713137933223655041e-01, 6.199138814062222780e-01, 9.022197095315708237e-01, 5.626581382028482681e-01, 9.944076405085618131e-02, 6.309456668417393610e-01, 7.204515511933518024e-01, 9.494004209077258061e-01, 7.755943643257164899e-01, 6.584628752825955056e-01, 5.446058487494299660e-01, 6.709363617216992370e-01, 4.929484195391571344e-01, 8.113896120730713646e-01, 7.882842349962122519e-01, 6.225478787457013885e-01, 7.800621885533796096e-01, 7.932865666174132580e-01, 1.923540811411507401e-01, 7.628729809708477416e-02, 5.455239692936015850e-01, 5.358857365033165010e-01, 8.963663442139621074e-01, 9.316371563594385563e-01, 8.109981265483314772e-01, 4.650346956414400656e-01, 2.118547105855738688e-01, 7.722133450133800148e-01, 1.831863164216063489e-01, 7.321418733798287226e-01, 4.511307435384928066e-01, 5.812457844719837174e-01, 8.319796568326626174e-01, 2.793658448599053989e-01, 9.912420600431479101e-02, 2.347327693528910020e-01, 3.502483890990301663e-02, 2.598559863606372811e-01, 9.107424199235749640e-01, 9.955669939369302668e-01, 3.751194958628334408e-01, 4.097468186267528845e-01, 5.331128830163586185e-01, 1.445929515955575173e-01, 1.408919670961187587e-01, 8.246239674451234791e-02, 7.340162142036507076e-01, 4.452917777557952039e-01, 8.951999249635689271e-01, 8.139171140954003514e-01, 3.807564187362059149e-01, 2.105367056500637435e-01, 2.772805670020451196e-01, 1.132577945454373569e-01, 5.417739275953461497e-01, 6.253633479419571373e-01, 7.196228541486358043e-01, 8.067309958690336291e-01, 7.574820030147675354e-01, 1.192220532105586206e-01, 7.017237485293432719e-01, 7.933754564691571920e-01, 9.464005920651895609e-01, 5.212016901689644488e-01, 8.566856197701766540e-01, 9.526188179139100098e-01, 1.211501092949926750e-01, 4.213661082744898922e-01, 4.465974018161628645e-01, 1.688896133119534293e-01, 6.535520812889444864e-02, 6.539925147394262117e-01, 2.558565683495503396e-01, 5.579062307894078199e-01, 8.560601828568863425e-01, 1.642467362040112844e-01, 5.084449439131178972e-01, 8.505296593887778922e-01, 2.828924583060845044e-01, 5.096318830982669024e-01, 6.321209852462990053e-01, 4.104759048642029340e-01, 7.157411803721647203e-01, 7.238007690444196729e-02, 9.598607195195446584e-01, 4.895770414539085680e-01, 3.789992275046582537e-01, 6.451563336768523227e-01, 4.951644911275451810e-01, 6.151507226998299549e-01, 9.822625841513142886e-01, 6.073716878213649695e-01, 5.252852944421213532e-01, 4.904331257928339904e-01, 4.663280576811702251e-03, 7.351813659478605156e-02, 7.793857208067183073e-01, 5.613191618051561749e-01, 7.195431879551956733e-01, 3.977504416436094536e-01, 2.646043943692190092e-01, 6.379550506448302682e-01, 7.388878415828560309e-01, 2.537719812543376974e-01, 3.213175697493520638e-02, 7.310743811885604959e-01, 1.897192459889315008e-01, 5.633245212150980175e-01, 4.368045401788741566e-01, 4.817265172138764928e-01, 4.934713938071330630e-01, 6.252818167351445466e-02, 3.021309751131966981e-01, 2.840056848408205048e-01, 9.872029831852183746e-01, 6.799857306048762151e-01, 9.967948250500699992e-01, 5.984253567606941937e-01, 7.892286645359516961e-02, 2.904792617295503532e-01, 9.170695805907644327e-02, 6.120169417522276500e-01, 5.886055986838547582e-01, 4.336542712927377030e-01, 1.853158074048725026e-02, 7.440682814614940632e-01, 5.302997509835393197e-01, 3.459651803614978705e-01, 1.044179824844263804e-01, 9.521180456580603801e-02, 5.482872350041271270e-01, 8.838304228201459001e-01, 2.338119883233242755e-02, 2.534444199188259361e-01, 2.366090856830268818e-01, 3.769202455932946227e-01, 3.206693032987643216e-02, 1.510651888797749920e-01, 8.698694765234149529e-01, 3.847332585958566087e-01, 1.230227620604799760e-01, 4.582552372567056942e-01, 9.980758767163011580e-01, 2.534536072769918436e-01, 6.211656440443037441e-01, 8.197176674459683010e-01, 9.605569064589708494e-01, 6.096336683241291299e-01, 8.704495129513990515e-01, 6.684516334886911881e-01, 6.756943376793882461e-01, 6.005030559506007171e-01, 8.634966190506885297e-01, 7.039378695384410634e-01, 5.163351261014088589e-01, 3.634418715141668477e-01, 2.637874410816857251e-01, 9.165695657689041861e-03, 6.545368228548316125e-01, 7.971743755629103756e-01, 4.905015327348904997e-01, 5.417928179068165484e-01, 7.432855026362048534e-01, 4.512122173483710807e-01, 3.369193812441499854e-03, 5.636753354573986741e-01, 9.729970698330936418e-01, 3.308085771975021183e-01, 1.296518798179119025e-01, 3.183876664440620785e-01, 6.573853597940898519e-01, 2.046913896316805148e-01, 3.895188182613099626e-01, 3.628151866276184689e-01, 5.281027913018365716e-01, 2.548554913930757837e-01, 7.683047300220491316e-01, 3.894848982695299777e-01, 4.201435129420514336e-01, 4.211526286097297400e-01, 2.080710313025485036e-01, 6.685888781606215414e-02, 8.936360507708844825e-01, 7.763630601192389458e-01, 2.189037982865689735e-01, 4.449284088301987405e-01, 9.723663420994291817e-01, 2.489001887562359017e-01, 9.391698875046639028e-01, 5.650942153282291214e-01, 4.461874862046745494e-02, 2.580516938490730050e-01, 5.485575078363289503e-01, 7.992607400767636205e-01, 1.417847950434625581e-01, 5.012050042344123879e-01, 6.107040650522889136e-01, 9.466569730021301421e-01, 6.451243179153886009e-01, 3.571186772892089856e-01, 9.510060800933390901e-01, 4.069209581086770111e-01, 9.260826672510610313e-01, 9.789113979294422618e-01, 2.458436903936748463e-01, 2.203028315859235919e-01, 2.698312643552990275e-01, 4.228908062025206194e-01, 6.447236246048594355e-01, 7.111145932109675938e-01, 5.163971521880840465e-02, 1.253070642865275197e-01, 3.805433644541365568e-01, 6.890576635394511928e-01, 3.924211640879476937e-01, 6.854179188764792929e-01, 1.187703761877876019e-01, 5.978433988057262338e-01, 5.580042024016776958e-01, 5.802903288720611119e-01, 8.835802569745848656e-01, 5.449432838567018766e-01, 5.321425214283237448e-01, 4.673514411622709530e-01, 7.674243765639701120e-01, 3.786963331362113161e-01, 8.198835633876505602e-02, 7.947916833268942050e-01, 4.898652995123532472e-01, 4.243994448603251590e-01, 1.247005488627010161e-01, 1.998038184543186602e-01, 8.821815566079136417e-01, 9.856342489095851755e-01, 9.839948341150804856e-01, 2.099534241402781776e-01, 2.240706265267521369e-01, 4.751122830292551225e-01, 2.614139912668897447e-01, 1.123963925881666243e-01, 9.364385378032670237e-01, 2.900246200121119888e-01, 8.694228070054505625e-03, 5.663701535036775869e-01, 6.744675442611517413e-01, 1.556435958678585307e-01, 3.076306119603542943e-01, 5.265830697920393932e-01, 4.026689648957700318e-01, 3.210716497500704647e-01, 3.245722653394071400e-01, 4.002844551162864084e-01, 4.180701016608791565e-01, 5.464286677127813130e-01, 8.437776855388674502e-01, 5.559951662067834643e-01, 3.378773816438384592e-01, 9.170237075426560525e-01, 2.422433341497488846e-01, 7.042342984306184661e-01, 4.935566620517226055e-01, 9.418365928033551882e-01, 1.445720221870301081e-01, 7.434114828746037906e-01, 7.117133997508693355e-01, 3.934368397428991693e-01, 8.768439013113481506e-01, 1.682711376226377065e-02, 7.386284710972053080e-01, 6.337694150809351779e-02, 7.682678057532787985e-01, 2.622453494705183630e-01, 5.597831729218859520e-01, 9.875257050194989894e-01, 6.552986174070153380e-01, 1.194346303694558270e-01, 3.360838748921497476e-01, 6.814560096448865067e-01, 6.483462807951709816e-01, 1.926668665833398408e-01, 4.086302921975579761e-01, 7.065943214319638788e-01, 1.032505951782868581e-01, 3.611194746383181720e-01, 3.270851045478176400e-01, 3.815644590567603411e-01, 8.557642491238569571e-01, 2.022483292623775408e-01, 7.668047227520481401e-01, 4.299356592749800643e-01, 7.807406687859990146e-01, 6.472184025126125340e-01, 8.624995047385908276e-01, 6.497314155704756455e-01, 5.765601478035644600e-01, 7.653640270368263776e-01, 6.994377401846333386e-01, 4.658088177212073022e-01, 7.710508458829274936e-01, 6.075841452400305709e-01, 6.763681591105636937e-01, 8.713089167800166512e-01, 2.652369720956440080e-01, 2.290932506127630330e-01, 8.477933092962742778e-01, 2.648229017506550931e-01, 5.076387844149429229e-01, 9.539025975244513900e-01, 7.993728692947712489e-01, 9.983310351340620725e-01, 3.328087112639659950e-01, 2.328867635533424796e-01, 7.811747669090093327e-01, 4.184043306782120331e-01, 8.671931268597935505e-01, 7.590634095982712326e-01, 5.402760297155639879e-01, 1.352399910975983499e-01, 8.172697140047900932e-01, 9.882379165837871238e-01, 2.002616560136848411e-01, 9.016223009068033978e-01, 3.730681929325174034e-02, 2.279906715303621212e-01, 7.791533541814608110e-01, 1.718505768141352363e-01, 7.966199362417127061e-02, 2.142394851207635176e-01, 7.864867727885875848e-01, 2.095130547682424460e-01, 1.624752199771140743e-02, 8.821456906063690484e-01, 3.345887822629855513e-01, 4.354717943014956294e-01, 5.223788403182875184e-01, 9.278813718616664152e-01, 2.185555140271737140e-01, 3.217842364205213967e-01, 4.004122746097589780e-01, 7.667075137803069929e-01, 2.191887453201033786e-01, 8.179597907139801727e-01, 5.104011373878957203e-01, 8.512434124199929064e-01, 8.645219779866157861e-01, 6.990709875547668206e-01, 2.679048686794485712e-01, 8.192342262723605328e-01, 1.739573546533790815e-01, 1.196863074089781348e-01, 8.801938716463597601e-02, 9.451575043042551583e-01, 7.206117283121825645e-01, 9.231006555611289688e-01, 7.717452451782393918e-01, 6.487549695876534961e-02, 8.151242282100399361e-01, 8.195137143138033764e-01, 1.060524478397418952e-01, 5.883453633132222915e-01, 8.770854879874471210e-01, 4.331715633338300009e-01, 5.605017693409507507e-01, 3.358362975023204688e-01, 1.275677049457136364e-02, 8.586347108399478012e-01, 2.832466631984592031e-01, 1.122012900230104082e-01, 2.538179444505338500e-01, 5.537180458547842354e-01, 1.860678453937563565e-02, 4.902024702398821709e-01, 6.188122334761458898e-01, 7.307156715447914452e-01, 6.028060042871268287e-01, 4.687922628913923639e-01, 7.404176299634649405e-01, 1.857072165117163165e-01, 8.951434223322012329e-01, 7.207192364043532029e-01, 9.659297297706179730e-01, 8.722880639787186641e-02, 8.102775040943607232e-01, 8.485578265984548840e-02, 5.003853795049315600e-01, 9.033582961399702072e-01, 4.198736961756070474e-01, 6.039339122636702140e-01, 3.435345445419305532e-01, 6.955913993878116708e-01, 2.900470494790037823e-01, 9.293543259036025628e-01, 1.327588545261242647e-01, 8.957186870517562793e-01, 7.087694934461197249e-01, 4.749963376540786708e-01, 4.565654355071407933e-02, 5.835042662338942865e-01, 7.900512862753149568e-01, 9.161050018668981387e-01, 9.257266114070323848e-01, 2.213888576723666846e-01, 4.972184496517313979e-01, 3.673833818785389171e-01, 3.196062255857227696e-01, 6.746805403120411659e-01, 6.285774825661193388e-01, 3.805763086103056830e-02, 9.816671349571767236e-01, 7.736414405459273169e-01, 2.104404913332013488e-02, 2.170984703969287138e-02, 6.119326370171482843e-01, 6.090027613854621658e-01, 2.506091481060013226e-01, 5.920882421911465299e-01, 1.276819964232591698e-01, 7.407236480557084501e-01, 8.242032804656447276e-01, 6.056138231434982089e-01, 1.132931981932961685e-01, 3.090134366189833393e-01, 4.373919737787581585e-01, 6.496015381964609370e-01, 3.665996950552514178e-01, 6.305753504089550709e-01, 6.133075828834562149e-01, 4.599118538758659724e-01, 1.218421581874974818e-01, 8.815740206195329387e-01, 6.967641948372377270e-01, 6.753305337953527943e-01, 4.778011998293349993e-01, 5.830492461434901852e-01, 4.459244688425960668e-01, 4.493859715802631660e-01, 3.888274151803245565e-02, 1.981280163528142957e-01, 1.777499333268264814e-01, 9.353870983952262963e-02, 4.487065400088783296e-01, 9.535070034416405216e-01, 8.293850554094070460e-02, 2.611085964975530804e-01, 7.139224901525780265e-01, 2.570930047894631199e-01, 6.030460785312183880e-01, 6.873650241338433720e-01, 3.030653152729400612e-01, 8.597755569524669905e-01, 9.114741508592965058e-01, 4.078304474604125818e-01, 3.666754618394613141e-01, 7.908070851213062635e-01, 9.162556569287109154e-01, 1.229412279271195757e-01, 9.662968812443664124e-01, 5.561209607435082525e-01, 8.428665845562138825e-02, 6.100546146728629271e-01, 3.422906617267354457e-01, 6.411093006588323151e-01, 5.360123710934371344e-01, 6.449803449970139546e-01, 3.480142592782161093e-01, 7.422045020457808118e-01, 2.792183552146565440e-01, 8.011367073992698984e-01, 9.328339040082460620e-01, 9.363617987620519445e-01, 4.084539860550433633e-04, 9.359567524062135657e-01, 8.508807386477988677e-02, 8.825950680230558731e-01, 1.294192690440124360e-01, 2.185421222270644837e-01, 8.974596574589738252e-01, 7.895181527928903931e-01, 9.183867580826484689e-01, 8.476099700794016700e-02, 2.527862888162504817e-01, 2.057686734258971917e-01, 9.297879648823618171e-01, 1.585458459810682730e-01, 6.850455049351716896e-01, 8.844875534873819500e-01, 9.967571605758626108e-01, 6.543277175130994827e-01, 9.059598629458578412e-01, 7.329014559023462327e-01, 3.354390547095852937e-01, 1.372398173955398371e-01, 4.148046907328398758e-01, 7.237596502451221214e-01, 9.381345754286132266e-01, 9.597063694888476881e-01, 6.533857959427097351e-02, 3.208312906277366316e-01, 7.937203054450706619e-01, 8.287931286543814835e-01, 2.556999631856463062e-01, 4.554282488811416396e-01, 2.056260314870749228e-01, 8.411636681252228076e-01, 9.882661818192894909e-01, 6.947286893290460785e-01, 6.303767072049859532e-01, 5.830126224796550183e-01, 9.099226556631124785e-01, 8.051514024745295428e-01, 3.557131113480261897e-01, 5.997740150031249939e-01, 4.458055672781049972e-01, 2.407915663197916500e-01, 7.853003892076303449e-01, 4.568095031399383998e-01, 3.067930882546130444e-01, 3.055968929568994019e-01, 6.500891556030049534e-01, 2.698675246697002650e-01, 4.159161258876872269e-01, 5.838600659594981312e-01, 3.444410708407190103e-01, 2.625525702481897317e-01, 3.840559611461125816e-02, 9.161657585905714773e-01, 8.843348800628840767e-01, 6.021828276801766133e-01, 8.224700690458681684e-01, 2.046953579223013686e-01, 5.294935729821896864e-01, 1.356917291365194733e-01, 8.677048872195605167e-01, 2.832329807834570445e-01, 6.416053838165051149e-01, 1.703892470917967028e-01, 2.194657724896357798e-01, 3.473061317618117982e-01, 8.889496180439507844e-01, 1.816019183305352669e-01, 9.197657723672214569e-02, 6.965829408247089516e-01, 7.039345157613919879e-01, 4.910242407482542926e-01, 3.813934475179454192e-02, 6.481471437956970449e-01, 8.983195415665475858e-01, 2.022656653648555736e-01, 2.178503544398053410e-02, 3.717812936840723670e-01, 3.181715265439806761e-01, 1.501949437769749818e-01, 1.573313040386367379e-01, 6.586517025877223208e-01, 5.321847759118508714e-01, 6.859026328860130806e-02, 2.241868759743249340e-01, 7.328204601999172008e-02, 1.624951924838565487e-01, 9.308398702155104010e-01, 2.695423931452831656e-01, 8.095659581011273032e-01, 9.379452652129245394e-01, 7.557532959895004732e-01, 2.920997074426914808e-01, 6.662633292568969079e-01, 2.664369598043306309e-01, 7.472375534584636547e-01, 9.827432749402226220e-01, 1.051234213838222187e-01, 7.249500479744835912e-02, 7.024918554354798728e-01, 8.623945628370592864e-01, 4.488994061654692502e-01, 9.239927433491743614e-01, 9.626095569707144861e-01, 8.028847177905727994e-01, 4.312137425451505468e-01, 4.409337744308217677e-01, 1.529155597465661764e-01, 3.399028309201230780e-01, 7.812282753604955499e-01, 2.307321364504972550e-01, 4.753230150752193323e-02, 7.608298694238745385e-01, 4.829632737908332585e-01, 3.339931860790441576e-01, 8.867021138529608271e-01, 8.091608068725232306e-01, 4.857176093097178016e-01, 1.768748680711639820e-01, 3.032821940146792628e-01, 3.983137011713066555e-01, 2.544601152198918137e-01, 8.833447606834146093e-01, 5.474937226656607647e-01, 5.413736794434330646e-01, 5.509401502636397385e-01, 5.269708881282418877e-01, 4.036037864716927048e-01, 8.566336696033992615e-01, 8.732626891553227355e-02, 4.758950697341945424e-01, 3.824117025876823117e-01, 7.736037325664666398e-01, 5.124932075427257594e-01, 5.293344161563271477e-01, 9.371372542520525206e-01, 6.197829842785483878e-01, 1.381094685415259204e-01, 8.354948735481648736e-01, 3.974011625653049995e-01, 6.895585395343315493e-01, 7.064266085138617424e-01, 9.957144805279426469e-01, 5.714202424732525154e-01, 3.541731793061558831e-02, 4.824511603616584710e-01, 2.698413464987796662e-01, 8.134051725655154774e-01, 9.222378860473624540e-01, 2.114173937032712836e-01, 5.182654635277689215e-01, 8.932599712076011444e-01, 5.764526048707336869e-01, 5.310452028918295764e-02, 5.946193956406891079e-01, 9.748121399705765855e-01, 1.647683402587070411e-01, 7.491692994815566387e-01, 3.927055155619557647e-01, 9.208436128808684673e-01, 2.946309923501930217e-01, 6.223440047048044432e-01, 3.192463491749378823e-01, 6.474798114057571385e-02, 9.232322422730647737e-01, 5.108730289525327262e-01, 5.540033772894082942e-01, 3.459932058672218202e-01, 7.972653589883715863e-01, 2.633996568638937164e-01, 3.506700488973151786e-01, 2.748140496186808890e-01, 6.294940379505110928e-02, 6.781017562963421730e-01, 8.002999692946483057e-01, 4.249914467409189323e-01, 2.547513142367642258e-01, 7.166167541415106035e-01, 2.374641961588579153e-01, 7.190075516423227731e-01, 7.619282913353697673e-01, 5.912426802738383058e-01, 1.903862190916380537e-01, 4.241646570542069172e-01, 1.619800843268830171e-01, 9.844581649073392074e-04, 2.182319337209027155e-01, 4.765283619725345643e-01, 6.667415605674836820e-01, 8.898353714188903529e-01, 6.046773170284706067e-01, 7.845328010168964861e-01, 3.828681600079185121e-01, 9.144536006830720209e-01, 9.845687562632556844e-01, 3.718131972513680217e-01, 4.676060099342624898e-01, 6.795924297262353475e-01, 8.089163779316600467e-01, 9.669861515178947153e-02, 2.798197809095182877e-03, 2.258983138751041730e-01, 8.038203738354164629e-02, 7.216683394878690150e-01, 2.345135397508248901e-03, 3.382300082135742958e-01, 2.155410267372073474e-01, 9.997936413691026480e-01, 3.586283375266563489e-01, 6.099079344454549911e-01, 1.446976537475119506e-01, 3.144305022096444691e-01, 8.666407929498910478e-01, 2.884836739119703841e-01, 4.566879074918175213e-02, 8.989706717516225964e-01, 9.741668877521936221e-01, 2.773368588118677591e-01, 3.355453271993949493e-01, 5.625232698345656868e-01, 8.530957228238742474e-01, 9.416536400754093039e-01, 3.262075198336316650e-01, 5.538127020877070539e-01, 4.067724733827589034e-01, 9.738036124840082630e-01, 3.745119641593930293e-01, 8.637442036198546003e-01, 9.368456627811134751e-01, 8.302220823939479022e-01, 8.112836549033648481e-01, 4.443900063077616536e-01, 4.734981974867342180e-01, 5.428389958968252715e-01, 8.810630425490634243e-01, 6.740762278618808549e-03, 8.158939087025067760e-01, 7.279421854729795083e-02, 7.646168870479006507e-01, 8.993802848978474929e-01, 5.858432538910900433e-01, 3.138201997547728217e-01, 4.850381000664668041e-01, 9.191153296186582722e-03, 5.376860828632367140e-01, 6.514801145138776617e-02, 6.128807307166180829e-01, 4.237826995038438960e-01, 2.548269764416440930e-01, 7.956688398316759114e-01, 4.467707344665171609e-01, 9.090399120897224572e-01, 3.797077388954674948e-01, 2.137930771903673310e-01, 5.134630827341941650e-01, 2.735061568145226163e-01, 3.264524755463724115e-01, 8.498668136817868479e-01, 5.699618041700357240e-01, 8.792851697325143601e-01, 9.693349602719030234e-01, 8.018397837456159305e-01, 1.922177416969726160e-01, 9.224026937580528385e-01, 9.904892752499312447e-01, 6.603451674444722475e-01, 4.656259414795692053e-01, 3.110005803934958180e-01, 3.430026855621159942e-01, 3.622753289457901482e-02, 4.281459494248641140e-01, 5.134442963175439578e-02, 1.916283448149336613e-02, 6.414016688290272716e-01, 3.173397033324018013e-01, 1.344673087791799504e-01, 2.384949763551213187e-01, 3.854856007672718965e-01, 1.397841404527447595e-01, 9.350790568906490741e-01, 5.625407916741659298e-01, 2.417466049939878403e-01, 8.340633381014246339e-01, 5.007049218503325516e-01, 6.710655066320639905e-01, 2.305464272975505657e-01, 6.536137691427312824e-01, 4.533429234956235510e-01, 1.650440224776079656e-01, 8.444437275901628404e-01, 6.253633261041345870e-01, 6.638450321717308533e-01, 2.272580994026779100e-01, 6.568903652787154712e-01, 2.436820224124791601e-01, 8.584735631154193358e-01, 2.385649588840561830e-01, 5.017477194594371220e-02, 5.332236666532839120e-01, 6.311191558460803319e-02, 4.843779725146583059e-01, 7.567031492146106819e-01, 8.851609283308579101e-01, 8.504743881555488771e-01, 7.634300452782729618e-01, 2.761901369753584912e-01, 1.109388561522208771e-01, 3.358804705276569602e-01, 4.100410051897144803e-01, 8.506018539678105173e-01, 2.637033357742905176e-02, 7.005826746828945906e-01, 3.179380917131669482e-01, 3.462547100288312918e-01, 2.361181701189897231e-01, 8.869746106783500394e-01, 1.550204437460653284e-01, 1.164494213689996338e-01, 8.356333650086841258e-01, 7.260270953746981171e-01, 7.652204549494493468e-01, 7.892266849869324086e-02, 6.917024982403449096e-01, 5.271912753672803875e-01, 5.538957276211560476e-02, 1.060696709583411890e-01, 4.319696511110649936e-03, 5.159103921887848720e-01, 3.789346980520019725e-01, 1.415629052115559283e-01, 8.785162506917750802e-01, 4.614699399063402208e-01, 6.674984800609651270e-01, 1.245526585198620528e-01, 4.491244555651724979e-01, 5.543685589519958823e-01, 2.219213306170506328e-01, 3.078393569565670007e-01, 2.942504914843592848e-02, 6.499932777714022281e-02, 9.320285298152701792e-01, 6.289731275022311108e-01, 7.300026725990375054e-01, 6.411435884111620354e-01, 1.423764132213959921e-01, 1.656864848017885472e-01, 9.353301399228032276e-01, 6.958018536464544157e-01, 5.961678614539742682e-01, 7.649061390876202848e-01, 2.239397413437346773e-01, 9.683349483267389424e-01, 4.140199053931986617e-01, 1.126787302202215679e-01, 4.492619126796435491e-01, 7.880124313957408422e-01, 5.870911854026669152e-01, 4.117032357704874523e-01, 5.952934651982888514e-01, 9.042181856058848499e-01, 9.201849180115641014e-01, 1.085005859334637612e-01, 4.242336059851047891e-01, 6.014659180662677018e-01, 6.740840919383758179e-01, 9.500624183010504265e-01, 5.724983497800526511e-01, 9.403267318170102085e-01, 1.373380132345529692e-01, 4.004386526261013435e-01, 8.535283084579516899e-01, 4.371713108210090182e-01, 6.210978990775580799e-01, 2.916508151447965158e-01, 9.474900101289412957e-01, 8.404146299090010930e-03, 8.735063801067008971e-01, 5.018132818668470385e-01, 1.661287906852834673e-02, 5.974985203531776312e-01, 1.569787641225342534e-01, 8.784437906092693038e-02, 9.235894756319078525e-01, 4.052969924763106802e-01, 7.520913144227975300e-01, 6.870405778832575638e-01, 2.139442166549337249e-02, 6.798962824569664276e-01, 5.873853570626369480e-01, 4.627245317213217746e-01, 2.997885021941399178e-02, 6.088188559212655004e-01, 5.463321034564613266e-01, 7.459156422724834146e-01, 3.386779425639790397e-01, 9.753238590522106399e-01, 4.482647838919854300e-01, 7.986351127143687112e-01, 3.338224027910007830e-01, 1.981946577224302508e-01, 8.035340471097053294e-01, 8.186407372309586483e-01, 7.933953187251128192e-01, 7.762029668548153793e-01, 1.484817399566586982e-01, 4.442039904324681654e-01, 8.543525692547808692e-01, 5.537516929028248880e-01, 8.229941797605602183e-01, 5.723084562571514322e-01, 7.007042892023114533e-02, 7.441451920595266722e-01, 5.464391690832798298e-02, 7.932282205986349033e-02, 7.382424519050040379e-02, 5.843240910857254722e-01, 5.606037599681247263e-01, 6.782228339299557485e-01, 8.576899000041726673e-01, 8.442206387762510866e-01, 8.155413610125473722e-01, 8.000735229972586460e-01, 5.616018978765645597e-01, 5.021656082355533401e-01, 4.125153886129698799e-01, 5.795437424617081446e-01, 5.396731454887782053e-01, 1.993704366777405423e-01, 4.767277020161444501e-01, 8.657383957134846542e-01, 9.379211463864832732e-01, 2.793061999197666845e-01, 6.349376396391395172e-01, 4.555099319143574577e-01, 5.971565341563961349e-01, 5.626906928583153000e-01, 7.168920661700114438e-01, 4.058113359885384130e-01, 4.617278723160475051e-01, 3.053016681295514512e-01, 6.862809896851903568e-01, 6.175992694049617926e-01, 3.570679839763626351e-01, 5.918614161966107012e-01, 8.773204042925778490e-01, 3.177574408136748518e-01, 9.944740773862764324e-03, 8.039276097105690910e-01, 7.190070952398395221e-01, 6.188662223673546681e-01, 9.698698638032714481e-01, 1.130394392161547662e-01, 4.777339109740594836e-01, 1.014457582080471598e-01, 3.927359267457947167e-02, 8.073090762866137471e-01, 1.295491827050942492e-02, 6.946264992781913117e-01, 7.878033576040244235e-01, 9.725484639965421563e-01, 4.168973436503826124e-01, 9.217550109779963918e-01, 2.874658340124722766e-01, 4.027016534087030086e-02, 3.784703240763445664e-01, 3.267375776398880882e-01, 5.103234910113451095e-01, 1.322194031218771604e-01, 1.092239256699907846e-01, 1.831068878053390414e-01, 5.857451154313990660e-01, 1.773995034066525311e-01, 3.212997248950478779e-01, 1.016239781342157845e-02, 9.632430273291316125e-02, 6.333214150383377206e-01, 2.325230425617525187e-01, 8.396390405211197061e-01, 9.107637506119321547e-01, 9.685085906054525795e-01, 6.675364737048801456e-02, 5.315056901174982640e-01, 1.366733323606342254e-01, 3.985260627472735351e-01, 2.058554505574305693e-01, 6.950426033622247868e-01, 3.109219180799388527e-01, 3.231864341879589486e-01, 4.508912312359085739e-01, 6.513622898808471007e-01, 8.647186607627816990e-01, 8.201284976533919080e-01, 3.702147547364915137e-01, 4.057580570178955792e-01, 6.701591487229425770e-01, 2.744558906144652366e-01, 7.913281438496658771e-01, 4.433262663246010371e-01, 8.347204777808112652e-01, 4.150428488753880041e-01, 2.756515573508100392e-02, 5.375936687914172341e-01, 3.466349790916273266e-01, 2.525740340565850173e-01, 3.515290121879541818e-01, 5.566379395695439936e-01, 7.346567275548826492e-01, 2.504746528294110597e-01, 4.536175214409152168e-01, 9.645755616765523399e-01, 3.350199187265552325e-01, 9.504653129657996136e-01, 5.256718333575469693e-01, 2.286516033946893178e-01, 6.575229158746048741e-01, 1.055531793773028734e-02, 8.072131315184312428e-02, 8.987611874114778132e-01, 3.149369303657475472e-01, 9.219885531998188721e-01, 4.908796416138475061e-02, 1.695407096181903231e-02, 9.312939290782085155e-01, 3.245955847943852168e-01, 5.692333726314446896e-01, 6.064288571436898811e-01, 4.328631802070492807e-01, 2.691939732901567628e-01, 3.896558324033844167e-01, 1.381082202818791071e-01, 2.832599877325515658e-01, 9.534761015695354391e-01, 9.829946267262879012e-02, 9.515919536313395266e-01, 7.644831195183945383e-01, 9.670638452391575601e-01, 9.813489580461207673e-01, 4.196101850787869320e-02, 6.385847191441583748e-01, 9.121795733586418597e-01, 6.665429051171873898e-01, 7.710582646714424504e-01, 7.057509809814731527e-01, 8.979318405469569608e-01, 8.175040793464023459e-01, 7.730668189309768124e-02, 6.149970380193527097e-02, 7.938676235970333617e-02, 4.035623876583783187e-01, 4.786550156696881553e-01, 6.642863562049046156e-01, 6.543961548812127216e-02, 8.313271854372137337e-01, 5.276412565662433884e-01, 6.055086243213468888e-01, 6.268427394149238552e-01, 9.079745536916890292e-02, 8.294034412879722762e-01, 9.813872216257977232e-01, 5.055406490451695989e-01, 5.885915143124752502e-01, 2.134044513556398182e-01, 7.766145903147686491e-01, 6.654077459822184404e-02, 7.154447969866737367e-01, 1.561680625957399537e-01, 5.347829222260190862e-01, 8.270775287632654571e-01, 8.532823535052566077e-01, 8.506306660079608895e-01, 3.912853009731241949e-01, 4.572291344990671996e-02, 3.072858895459762429e-02, 8.168493805277666775e-01, 8.933912951364008093e-01, 1.674178548547256007e-01, 2.682931057449971513e-01, 9.416379633204249311e-01, 1.994729087962729130e-01, 9.817988315489634132e-01, 5.779065272725272262e-01, 4.283517530736950518e-01, 2.140640534748946000e-01, 6.222456215264535739e-01, 8.048272837303377392e-01, 2.015025265416795219e-01, 4.994482594279191501e-01, 4.095918289523362565e-01, 1.961589145040301685e-01, 1.056633823073972918e-02, 9.651992574553271975e-01, 6.163119805857949496e-01, 4.012160107970689782e-01, 1.479367578927328064e-01, 6.734910652846533008e-01, 3.579558446510026082e-01, 5.107144266518404141e-01, 8.502947669161650124e-01, 7.101690628528381163e-03, 4.357200361089759721e-01, 2.704020875013844472e-01, 5.748201817342792896e-01, 4.270570234246479080e-02, 3.208749135684781928e-01, 6.683401817832516079e-01, 4.719504009313284926e-02, 5.329191233992699450e-01, 8.939440687542591357e-01, 3.851918564155799585e-01, 6.124316466347521359e-01, 4.183313232517531510e-01, 9.718893034209945547e-01, 1.403789716055335868e-01, 9.122990306898262070e-01, 6.684514957549136938e-02, 8.030230631168833177e-02, 7.848614872641546114e-01, 3.431476803969492617e-01, 8.574762407245338780e-01, 1.918277932535074892e-01, 7.174851976678989773e-01, 2.727635038313303006e-01, 2.178461459097209840e-01, 9.946368795553508502e-01, 4.120058634552882237e-01, 6.844746272037117996e-02, 6.723627376061568350e-01, 8.758442958811578638e-01, 9.514031219405988393e-01, 1.672630942270521628e-02, 7.308894492845354751e-01, 6.245650512618413641e-01, 4.503599298573832121e-01, 1.011491538844714322e-01, 5.025249211203552946e-02, 9.426129826195993600e-01, 1.422535660000933712e-02, 6.810914833199598339e-01, 4.836741963596353222e-01, 2.360103434369992814e-01, 4.592481952870941520e-01, 9.325826241068979616e-01, 6.824644143381204398e-01, 4.091737118277340435e-01, 7.969459369053454312e-01, 6.108806033518963119e-01, 3.505684191281472906e-01, 1.149549644947230470e-01, 8.152088605499006047e-01, 1.847843017540012900e-01, 2.002862289930799622e-01, 7.909554857646995396e-01, 1.710147502824505960e-03, 3.617371992487659615e-01, 8.417987613007730241e-01, 1.584638855784087363e-01, 6.641712578978986592e-01, 3.410837768522562152e-01, 8.927805428015325173e-01, 9.663495162954571782e-02, 7.496651585702311937e-01, 4.146404542517946323e-01, 9.079887428578370390e-01, 2.526867967398218132e-02, 3.815901889022991211e-01, 8.158413261646485504e-01, 7.149518061204808428e-02, 3.569611628091946542e-01, 4.725171084241341357e-01, 5.036236807807570326e-01, 4.517669576191013503e-02, 2.326849600669311513e-01, 9.935087712836240259e-01, 1.873776001770512817e-02, 4.158496034512498274e-01, 8.799548746773839802e-01, 7.893569932665828182e-01, 3.480708505832182942e-01, 9.071751643178679325e-01, 3.893355792319008746e-01, 3.713360493902320147e-01, 5.695857721374133487e-01, 9.620503895484270318e-01, 8.732235375875693206e-01, 3.999424862791092772e-01, 1.994278840685794751e-01, 3.961071784213117675e-01, 7.372282120810008665e-01, 3.379930321388373016e-01, 7.153836333494876243e-01, 1.986061216019125442e-01, 8.615608495830926472e-01, 6.105393236693449355e-01, 3.999853087383328787e-01, 3.397740959811206829e-01, 8.855090839669995662e-01, 3.607076327707064434e-01, 2.324482560590847291e-01, 9.859498108533478744e-01, 9.283604017089127636e-01, 9.914339511754213241e-01, 9.847765449512935199e-01, 2.618365015774181109e-03, 2.867383424547532145e-01, 6.913485033326041140e-01, 4.989372502017832417e-02, 2.865853198530809443e-01, 4.106240073547872682e-01, 2.089439032195210266e-01, 4.152732781486889735e-01, 9.062753780391842318e-01, 1.768424869978681979e-01, 4.901306110824115714e-01, 9.859692504729602458e-01, 2.964031576105162213e-01, 3.381488854503028052e-01, 6.850761990513590249e-02, 7.410210526937253128e-01, 9.784347729024037710e-01, 8.318431459243229575e-01, 5.396312424955734127e-02, 4.587979043320543626e-01, 1.957765194626982230e-01, 1.004356494829908852e-01, 7.590822000045340801e-01, 5.731705450831054982e-01, 2.834885316369276653e-01, 1.306942788293154745e-01, 7.351434562685257301e-01, 4.190592748843757209e-01, 2.944125700985456007e-01, 5.200032558896657831e-01, 5.045549931225410401e-01, 3.809588260490289202e-01, 1.322690745194642927e-04, 3.226447132018605557e-01, 1.357505805232959439e-01, 7.850383287596138793e-01, 6.853716637046094462e-01, 8.594495424598820321e-01, 4.111146030428706744e-01, 1.975783572891828543e-01, 4.352760491037891422e-01, 9.463870673916302545e-01, 8.493530895455723151e-01, 7.334475215655370528e-01, 8.307846219822494493e-01, 1.984164211360355257e-01, 3.096259374118268126e-01, 5.138793905469883905e-01, 8.853121466430357023e-01, 4.295241602827625238e-01, 3.546860005372639013e-01, 6.119124842428583788e-01, 3.449410767078602280e-01, 2.434204939885517005e-01, 6.031831369502755891e-01, 9.855152387956609417e-01, 6.981357959766394672e-02, 1.184223708891029708e-01, 3.204905674398608739e-02, 1.549816766112100674e-01, 8.194770825122557056e-01, 6.047145980553123579e-01, 3.438236126407785698e-02, 4.652752969359985613e-02, 8.396577804183760207e-01, 3.081845533886127253e-01, 6.159517399844315344e-01, 2.689786816256019564e-01, 6.492799560963743444e-01, 7.416885466864376886e-01, 8.844497797667715266e-01, 1.657029424890747449e-01, 3.045925528228673462e-01, 6.933937529753859685e-01, 6.864460106436759412e-01, 9.833551301313221416e-01, 7.173787898912373229e-02, 4.571388001644832721e-01, 4.714565785824027105e-02, 1.028464168488666397e-01, 1.657304358555492518e-01, 6.983252248942967144e-01, 2.460473628980138494e-01, 3.305823517970084002e-01, 2.464668745187766352e-01, 2.525543230024819286e-01, 3.700575840720623511e-01, 5.288432342036792147e-03, 5.740230218533068918e-01, 4.203477098654515021e-01, 5.645119549036590190e-01, 2.714481993390869818e-01, 5.771288476407979706e-01, 9.138580253542720744e-01, 5.911494015965582660e-01, 1.764954647301062163e-01, 8.997964365958715377e-03, 9.088589528481673119e-01, 7.871504137365894493e-01, 7.111006452383920040e-01, 1.400690167353987325e-01, 2.397080814165538365e-01, 4.094423955484735589e-01, 9.605426558432605955e-01, 3.881743255469463638e-01, 6.894275587230725977e-01, 2.276717515672775360e-01, 2.910791095268664419e-01, 3.973408943303825547e-01, 1.850546559362979959e-01, 2.643091374715890729e-01, 7.048417662932564554e-01, 4.051210616536162767e-01, 1.463279612918069184e-01, 8.851057386231410140e-01, 3.657115480108011352e-01, 5.529560179643080442e-01, 9.159719212009617140e-01, 4.731815673287346757e-01, 8.607463640667184501e-01, 9.578007363177470923e-02, 3.782229559543360264e-01, 4.970488891446176449e-01, 5.514752919828642685e-01, 9.401376254201787575e-01, 4.196342976947941561e-01, 3.920513628956359686e-01, 2.614555885438657468e-01, 2.202567961414197140e-01, 6.201819222367654927e-01, 2.247781851217573457e-01, 1.949616329224101302e-02, 8.370182270218630149e-01, 8.828002573683205734e-01, 9.658006703395996539e-02, 7.388051861631288464e-01, 3.365706857481223779e-01, 1.591773299509232076e-01, 4.963726694846340437e-01, 8.159439706760571731e-01, 6.259492836198171650e-01, 9.602015415170895851e-01, 6.833841958219754043e-01, 6.459605083698766181e-01, 4.505152503208609271e-01, 4.729729183663679004e-01, 8.680986250602197307e-01, 9.535895740650157659e-01, 5.604445390301513452e-01, 8.812797987052004567e-01, 8.397028595187587818e-01, 7.499193935825440027e-01, 4.673108496263285172e-01, 6.926850084725001411e-01, 1.353239167041963842e-01, 8.794574521823776969e-01, 8.191771573794767169e-01, 7.429050334395670419e-01, 8.818082600094238055e-01, 5.439693803950023110e-01, 2.968160264812873539e-01, 3.015699998108996582e-01, 2.865357337416029604e-01, 1.898731855757870568e-01, 7.244521094856188892e-01, 6.181969027359339730e-01, 4.347824665180975434e-01, 4.090031262617331853e-01, 7.862861542529376857e-01, 3.206396435195190686e-01, 2.151523938119329626e-01, 4.271784041337582938e-01, 2.181678916171805038e-01, 3.604329743356142757e-01, 4.322361312804227640e-01, 6.065741030271289969e-01, 7.954386001646216453e-01, 7.455496609234250061e-01, 8.219201319621173563e-02, 5.329792703655115288e-02, 5.035705872754842050e-02, 4.208887728741093626e-01, 8.181009873613040995e-01, 2.823309161242302471e-03, 9.830154130894257491e-01, 9.415182249184838037e-01, 2.309305067540019241e-01, 4.750262720324961441e-01, 8.584451145976415010e-01, 1.161171179240891860e-01, 8.963207747364496658e-01, 4.541363148662907467e-01, 2.927766215161541896e-01, 7.069277020186796046e-01, 2.343476405637475446e-01, 9.689431970769523117e-01, 7.853448599283302523e-01, 7.730963382909243620e-02, 4.819393578614868806e-02, 5.193004252515728281e-01, 8.979806254691351519e-01, 3.161049523649170356e-01, 8.026319258196394912e-01, 1.377397793552952165e-01, 3.845329160909898708e-02, 2.643862727430806858e-01, 4.633392237903384281e-01, 7.759029666997327990e-01, 9.579686337737373103e-01, 2.159093336777380412e-01, 3.778295499364673904e-01, 7.596666792823434378e-01, 2.774135578904195487e-01, 1.515544777092546758e-01, 7.597921544829219220e-01, 4.102467698839973309e-01, 4.573694045248254125e-02, 2.431495209050751061e-01, 1.403657031938275179e-01, 4.584688022537264374e-01, 5.773524911576065621e-01, 7.480431829347610195e-01, 1.477592615615687388e-01, 1.690663817737899088e-01, 6.555152917196352957e-01, 3.966224275281381856e-02, 2.523032261483456606e-01, 4.281455872986624223e-01, 1.401393934392085872e-01, 8.238564633463648645e-01, 8.213505474128964812e-01, 3.839261030496291666e-02, 4.188520612228244233e-01, 5.074434068743866044e-01, 2.749312862951761582e-01, 6.304844402733926767e-01, 3.963691047748785223e-01, 4.780355567400780825e-01, 4.009031457998684100e-01, 8.778320059747387605e-01, 6.606105125008036039e-01, 2.870963542649581160e-02, 2.782192428760197900e-01, 9.592707634841652897e-01, 2.185585501869092007e-01, 1.579820748200383429e-02, 9.266915864051650242e-01, 7.911536413685418268e-01, 1.841127221505122619e-02, 7.702573264422525323e-01, 1.458771158800027112e-01, 6.073401148546273554e-01, 9.041068494919191068e-01, 9.604179773752123950e-01, 7.035575399977067601e-01, 6.482262688291255959e-01, 8.612019119561944436e-01, 6.688873529402388218e-01, 5.634790538383155356e-01, 6.168551953859601200e-01, 3.678998321800378002e-01, 7.050089209251127198e-02, 2.684650253126080188e-01, 5.559553897160531832e-01, 8.379723530034884904e-01, 2.851981043988923159e-01, 1.967710221835846651e-01, 3.508703948112691373e-01, 9.035226799411723020e-01, 1.474294573820671972e-01, 7.552854136962131593e-01, 8.216060202709269955e-01, 9.777986765117080425e-01, 2.423358918604079926e-01, 5.081569955719474896e-01, 8.333321576733673242e-01, 4.808760574750923777e-01, 7.289223400256424901e-01, 2.760350995602032231e-01, 7.161744380838750423e-01, 4.452440099911953442e-01, 8.737413099006435813e-01, 3.506382740967045608e-01, 5.473181234738205836e-01, 2.724139987214257985e-01, 5.930752429935483017e-01, 6.398743959486139499e-01, 9.009238884877317499e-01, 1.380742238271920851e-02, 3.898355981116097269e-01, 5.168932598233040299e-01, 7.398882395143847601e-01, 6.743255955054650030e-02, 4.054332448267347622e-01, 5.791322977061439392e-01, 6.821944446970094056e-01, 9.585553145972751377e-03, 2.291924161027831253e-01, 5.355753382364848436e-01, 9.919641420325784331e-01, 4.483352764529017209e-01, 7.587905578255207395e-01, 8.248172359317597346e-02, 4.053843194204807543e-01, 9.482382847657799818e-01, 4.509836539441643977e-01, 2.068323539203881511e-01, 4.317677443178972729e-01, 8.838359486319470326e-01, 9.431908085816804732e-01, 7.827177172206762901e-01, 8.968466233580333347e-01, 8.427966369520543122e-01, 2.414086030733379185e-01, 7.815315411049651440e-01, 4.606190038651158947e-01, 6.082345881206235871e-01, 8.140615106896952335e-01, 1.860589500302019805e-01, 4.424770323102311664e-01, 8.894856311095178381e-01, 6.535667655716536073e-01, 3.728157463463716015e-01, 4.908238465065113409e-01, 2.855529540409789124e-01, 9.352014193055743219e-01, 2.745412283104400331e-01, 1.503437491881917110e-01, 3.498478707555690015e-01, 6.719079145021062960e-01, 8.365653262389320666e-02, 8.477364774475536491e-01, 3.435349981075727088e-01, 1.003107079864159756e-01, 9.516888790284039334e-01, 5.765256403116276740e-01, 9.698520013212501290e-02, 2.467128572435978717e-01, 7.937642053130196107e-01, 2.253744495518932023e-01, 4.923482330276758301e-01, 8.210731303182809970e-01, 8.607626349802310894e-01, 9.730505465679072374e-01, 3.317562451880425867e-01, 1.286700234097180040e-01, 7.954237555438228302e-01, 5.412829741939896300e-01, 2.048205512863461863e-01, 5.805854018535597794e-01, 1.418645123455103962e-01, 9.295353881986075928e-01, 1.892446485175817150e-01, 8.466648389268613961e-01, 3.760672254440430295e-01, 2.669230853661097025e-01, 6.926995718375140720e-01, 4.919291894268587595e-02, 7.451113645347258174e-01, 4.664452324229990676e-01, 6.937559369228130102e-01, 1.172854063640068473e-01, 5.655073102858279022e-01, 7.994610659298235777e-01, 6.837105790186160936e-01, 5.563723969211719078e-01, 3.522892006583748792e-01, 5.925826883481372098e-01, 2.234790621610852415e-02, 9.153980659194641545e-01, 8.664002487535115149e-01, 3.058203086606237076e-02, 2.241654964761511937e-01, 1.614047881795518113e-01, 9.504869370541955964e-02, 9.641420747226042698e-01, 9.593836512840228092e-01, 1.050437819455526806e-01, 4.892744996269724478e-01, 9.100027032846110808e-01, 1.011270960196454793e-01, 8.372969543351057586e-01, 9.347939663584385883e-01, 8.683082485319976174e-01, 8.500294649197828178e-01, 5.098298377527542558e-01, 7.610557689600361275e-01, 6.567647005362636792e-01, 2.643722433368960734e-01, 4.097349711457074495e-01, 8.627056675635181859e-01, 9.284363525000241535e-02, 6.357178283670611441e-01, 4.063380059313558279e-01, 9.081334089678702037e-01, 4.021158679161508376e-01, 3.602892056727700076e-01, 2.330459697767010840e-01, 2.358433204076464673e-01, 1.916107473772306682e-02, 5.967412650854264644e-01, 3.151381716553507406e-01, 6.986268129732221555e-01, 8.013606710553984325e-01, 4.155895180837310132e-01, 3.654288135160041473e-01, 1.898736115893513987e-01, 6.741414577135600439e-01, 8.475422923060924596e-01, 3.639052797804424033e-01, 4.016664703105053413e-01, 2.557039502688247534e-01, 9.368432477512991241e-01, 4.328186347104306386e-01, 5.320325271825088187e-01, 9.165001338146234744e-01, 5.387674874209721354e-01, 7.921221687629620423e-01, 3.852502786573194227e-01, 8.358605074034405336e-01, 4.666928463784955072e-01, 5.624109345947183591e-01, 2.219399000367776320e-02, 3.944893511496735949e-01, 5.810894699567802774e-02, 9.505939097001600002e-01, 3.040590117935923486e-01, 8.653790189277442702e-01, 4.226616721513602459e-01, 4.175975264415670574e-01, 6.677621012456823602e-01, 9.603584003297511995e-02, 8.295708675306464608e-01, 9.095729509328570606e-01, 1.334850771057954355e-01, 8.344384616556415057e-01, 1.066648589438700528e-01, 7.368965949685704064e-01, 6.559995196425650876e-01, 8.210389238322437500e-01, 6.400356370544229012e-01, 5.472498292904852402e-02, 2.871703616608030085e-01, 6.316557562675650939e-01, 8.143125965607435346e-02, 2.671097135186745186e-01, 3.339622678049402049e-01, 9.845925892477485064e-01, 2.032088305046850785e-01, 9.609670206433036377e-01, 2.483660011521423849e-01, 5.160001187728309180e-01, 8.218834702645793078e-01, 9.924630311505131530e-01, 1.767500698131047598e-01, 8.519019707070590863e-02, 4.989030948554492584e-01, 3.406773757283422799e-01, 3.020848493882980490e-01, 3.649412985430193213e-01, 6.253706847704018079e-01, 7.508550260305880686e-01, 1.187911416943140397e-01, 7.194235703983102859e-01, 9.307352324823313650e-01, 3.484382965391517595e-01, 7.378063779431348612e-01, 7.419645722482307582e-01, 1.139010149358848922e-01, 8.698475582294236119e-01, 6.431301222867523704e-01, 9.632620035093353295e-01, 6.646852801614593353e-01, 9.060203597496443439e-01, 1.807015260810148904e-01, 1.709458240359578995e-01, 3.056240705392420515e-02, 7.789002186816741391e-01, 8.015832474182877920e-01, 8.346338592255818367e-02, 1.309047783364295503e-01, 4.328028469343791484e-01, 3.610888844496261685e-01, 8.205150555370210874e-01, 6.481916605142179488e-01, 7.787438239626467973e-02, 3.839137219938850709e-01, 4.211583482874049489e-01, 8.432582062624924268e-02, 7.841143967067348841e-01, 5.575063667671609213e-01, 3.819240925910226681e-01, 7.498718209556821668e-01, 2.224035191861930827e-01, 5.069052449109758829e-01, 2.883073915589244307e-01, 9.456652825142974894e-01, 9.333006901622049600e-01, 8.179992802133591034e-01, 3.838451373859467775e-01, 1.001885931790665041e-01, 8.164590073257149694e-01, 3.854978989097901376e-01, 6.755531436364514697e-01, 3.320130934418247803e-01, 4.512327231433900521e-02, 8.444664879906079724e-01, 5.858833955080074984e-01, 1.747562696614674560e-01, 5.070466219858821288e-01, 9.777265903712438755e-01, 3.523191564294073652e-01, 8.803081636170242419e-01, 3.088963669980974713e-01, 5.152514338983547049e-01, 7.388639301921067215e-01, 1.043082975865679968e-01, 3.591579933799071700e-02, 5.886192587228261663e-01, 5.939873214602686691e-01, 6.256889236648125428e-03, 3.762957492624148248e-01, 8.633258648089610077e-01, 3.679371567037007518e-01, 8.312293929193896869e-01, 4.037555909767577278e-01, 2.213349166418878411e-01, 5.986337088010682539e-01, 9.585188694734307902e-01, 9.696904512547751542e-01, 7.323059051348588255e-01, 6.605051172333594733e-01, 6.575796356247796126e-01, 5.861250377510048848e-01, 3.918516725438445092e-01, 8.295497774030387295e-02, 2.628376636504727304e-01, 8.817192269954247097e-01, 4.755614448934378791e-01, 3.533934132869943068e-01, 8.136256086083942796e-01, 1.586652420126418717e-01, 2.111792414507057680e-01, 6.613721717771840758e-02, 4.695830340849918016e-01, 9.731672456386529779e-01, 7.409564097614758094e-01, 4.686445681468979774e-01, 9.866522045183313550e-01, 1.149735903548580324e-01, 7.592635607014053267e-01, 2.059290678073025238e-01, 8.869310634483221767e-01, 2.813986561575537171e-01, 3.952528518162017335e-01, 8.765521651086058963e-01, 9.218639201351928048e-01, 7.420404747884800090e-01, 4.067614570370070015e-01, 5.470575415486729209e-01, 2.865214238351694240e-02, 8.705750902782261047e-02, 7.146448135623844067e-01, 5.649957885006505753e-01, 7.862504124343476786e-01, 9.646805017609783039e-01, 1.909329559228011841e-01, 2.713079507734236229e-01, 5.433639277382974753e-02, 6.666553895411416741e-01, 5.169008189798738329e-01, 4.715915768775726380e-01, 2.905811146230750652e-01, 6.446260427147323391e-01, 7.721513579901182478e-01, 4.621171214783757475e-01, 2.113989936658406399e-01, 7.126379042905073291e-02, 4.614473288878616075e-01, 4.441478989436108971e-01, 7.100024025364636282e-01, 4.054350382763420857e-01, 3.731503325001522264e-01, 9.522198673035536798e-01, 6.975309216104839116e-01, 6.357045799816966047e-01, 1.727252238291248909e-01, 9.777307789107383407e-01, 8.126228293889270482e-01, 6.936337857389331951e-01, 9.681159812690717237e-01, 7.855077160887102838e-01, 9.973330947454333018e-01, 7.267340639946231473e-01, 6.679174936292660014e-01, 6.356731196889207069e-01, 6.071669018561614423e-02, 2.343737243688210070e-01, 9.441231489764075890e-01, 3.630529843842086879e-01, 4.789896668730899559e-02, 1.304589105903987932e-02, 5.060507624293708595e-01, 9.856296325188129703e-01, 9.468126260354801094e-01, 4.868348349171152112e-01, 1.108389277283143154e-01, 3.481989917438099713e-01, 8.301207816180766752e-01, 1.168235054520485178e-01, 9.868785076990371774e-01, 1.886275925265241682e-01, 1.166121640554372146e-01, 4.020391372574599331e-01, 3.122673158739697197e-01, 5.338775864291642748e-01, 6.042019592658972593e-01, 6.004830396975937568e-01, 4.758689270600667265e-01, 9.311694285796573434e-01, 8.904219724711822659e-01, 5.012415374994542289e-02, 4.167641340528823735e-01, 8.137528500821771260e-01, 6.262938150664046355e-02, 5.349954282358083679e-01, 4.842120854159291943e-01, 3.806527412110220498e-01, 5.777133093252945217e-01, 1.978941485876649798e-03, 2.235168767418987124e-01, 7.666459729443215743e-01, 6.390866752289003916e-01, 2.886560990967720897e-01, 6.208524078521059780e-02, 2.145574891345352064e-01, 7.129365753133841688e-01, 4.270676469438577372e-01, 4.703581127139108697e-01, 1.043545867885461165e-01, 8.043847691055883153e-01, 8.760029694299706904e-01, 6.454085993333125160e-01, 2.496430340736900677e-01, 6.908500998209172739e-01, 3.064545174095739122e-01, 3.331054810778462105e-01, 3.850215525297774888e-01, 7.806110857462241759e-01, 3.052051352867287126e-01, 6.808301073943178183e-01, 3.402540901961847442e-01, 5.670113541867074503e-01, 2.307132747255678240e-01, 4.198459183307328701e-01, 7.499617712137883752e-01, 3.785286170185677146e-01, 2.074889449519309592e-01, 1.970969714996155531e-01, 5.169394233213080447e-01, 4.541652517181624660e-01, 6.342496488826691037e-01, 1.045990696557097116e-01, 6.653377967101589130e-01, 9.546667742069094853e-01, 6.030689920691505446e-01, 6.386924393156033775e-01, 6.714508331167091670e-01, 6.350498868795110274e-01, 5.539875325021355046e-01, 6.976607982048842471e-01, 2.086664588810887011e-01, 3.488623967557942795e-01, 2.830588123422023705e-01, 5.305049397211297757e-01, 2.402387160174210556e-01, 9.649417534684580078e-01, 5.273044917731382064e-01, 7.286491692796894792e-01, 8.977102085068977555e-01, 2.704978280444875760e-01, 8.820731631349473245e-01, 2.154683832280933700e-02, 2.412579988667954700e-01, 8.567265172469031853e-01, 9.683074166226054436e-01, 3.864206824364895265e-01, 9.760969432049753092e-01, 9.207010978265767198e-02, 5.111154703337882355e-01, 1.187253849180757853e-01, 8.306009386923485227e-01, 7.513413368343760945e-01, 1.570600693182928609e-01, 7.210681585667171045e-02, 6.241987580518418843e-01, 5.281729752092365615e-01, 9.408219873464349625e-01, 3.272239823557844540e-02, 8.067118158821215412e-02, 2.940587554459720421e-01, 4.696159653963665748e-01, 7.302532608673009129e-01, 9.316505082872323928e-01, 3.445758669706128763e-01, 6.210372898025395827e-01, 1.369414916914116487e-01, 3.123728630191333067e-01, 4.343082333817149809e-01, 8.651127441716075506e-01, 3.038171143388195827e-01, 8.412255391237859481e-01, 5.550519411606907871e-01, 3.305387805148574110e-01, 1.007797222475758231e-01, 5.215806770167371598e-01, 1.967681240164330658e-01, 6.039234665519689349e-01, 6.500977570721219179e-01, 6.296199641241229106e-01, 6.414068321032416753e-01, 8.546210845014147461e-02, 5.668691846546665136e-01, 1.832114823659635183e-01, 2.106573948493090931e-01, 8.958496630120850179e-01, 9.395421298187173198e-01, 7.870174142040021747e-01, 6.177090163075802387e-01, 4.069448502074305973e-01, 7.420782584126405235e-01, 5.270624111420411234e-02, 6.509327946958597400e-01, 5.538073791590522044e-01, 8.679378160795168107e-01, 4.823757997684391952e-01, 2.721624157273125899e-01, 9.724060703791584381e-02, 2.082202510409469631e-01, 3.083257993550939657e-01, 2.254858253734686180e-01, 1.650254088699623922e-01, 4.487194884791906868e-01, 3.934490534561659314e-01, 6.545756444212501579e-01, 7.814657354875258477e-01, 6.777916323721694392e-01, 7.596363865753756606e-02, 9.326904167624742170e-01, 1.644906552194471405e-01, 7.343811099132513398e-02, 6.138607354191732979e-01, 6.381654363763716864e-01, 1.045190729337083652e-01, 3.748843610192859055e-01, 2.223754776157313984e-01, 6.813808900189282092e-01, 7.514046510653092925e-01, 5.324840757910515032e-01, 7.124928890702773021e-01, 1.134825526727328976e-01, 4.788128942059552973e-01, 4.224186526700181021e-01, 6.597036074123059368e-01, 4.956310862449226362e-01, 6.903082423377153720e-01, 9.341802991303281845e-01, 4.546915661925625685e-01, 4.060287137769437726e-01, 2.585351720124948738e-01, 9.946689991682104992e-01, 1.952581737496393854e-01, 6.204219102175370093e-01, 2.999639258038862000e-01, 5.225441881905238395e-01, 6.910316681464342414e-01, 7.098668987766790783e-01, 5.526174332179309423e-02, 6.269599554803785280e-01, 3.118808854504085959e-01, 2.830546603168829778e-01, 8.657116536819522423e-01, 7.252932001493201941e-01, 8.615788513570363794e-01, 7.904959441640021511e-01, 6.637086457909888715e-01, 3.226651567272221244e-01, 8.402503509034375817e-01, 3.359403422647874726e-01, 5.167423383355181921e-01, 8.278249282573925116e-01, 4.473058813149838331e-01, 9.456038510029444177e-01, 6.799650390423704893e-01, 5.352926930305730302e-01, 7.480959039707013591e-01, 9.262196458551597011e-01, 4.717600768347493534e-02, 9.669577057157353606e-01, 4.150650074854637661e-01, 4.985037165806691095e-01, 2.214756803954154030e-01, 1.859853915221175436e-01, 7.121298751272003846e-01, 8.855006107077589839e-01, 9.311950247766916933e-01, 7.441290250901893000e-01, 9.435258838861293462e-01, 5.146875887085021750e-01, 7.170758480471036700e-01, 4.741262187322100030e-01, 9.611386673137733982e-01, 1.226474207200369815e-01, 2.504680750107142750e-01, 8.713969333233371195e-01, 9.888135686318366702e-02, 6.208757246875491465e-01, 6.151247917098616735e-01, 5.306227197155450881e-01, 8.863033842096013082e-01, 3.522807491088086884e-02, 3.764904059500996381e-01, 4.847303658444936936e-01, 5.869815998165522908e-01, 8.149595864493782704e-01, 3.493395259139207842e-02, 1.127330669240052957e-01, 6.552229514879452932e-01, 9.654188252965274497e-01, 2.972980911549408800e-01, 9.011108493380798334e-01, 5.200771539750423389e-02, 5.814217645904848908e-01, 2.512278985369232887e-01, 7.422469553906152484e-01, 4.163262597366604312e-01, 6.454502347891758474e-01, 2.773726030413036781e-01, 9.568099274847929880e-01, 8.849040988116783912e-02, 9.864366754191808973e-01, 4.402578132507820041e-01, 2.404513072879315705e-01, 9.874809420541827421e-02, 3.052465612970182152e-01, 8.577684160185164997e-01, 1.218484892615716575e-01, 3.922727174116203419e-01, 1.392294203559865939e-01, 1.940721115991281276e-01, 1.344226187755047652e-01, 9.797236804648493114e-02, 9.419879846075995822e-01, 8.063919995627000237e-01, 5.950692143035816312e-03, 2.686270186967245621e-01, 5.210703073337658031e-01, 6.810253738688312186e-01, 8.798887492462136306e-01, 2.570504249890820381e-01, 3.308720206219185611e-01, 3.124771602768934287e-01, 6.554991427652714364e-01, 1.377634816353930647e-01, 7.553565611240471434e-01, 4.576171270796312029e-01, 4.112943614794025704e-01, 2.536177110311772509e-01, 1.749938774259859608e-01, 6.623673614446434765e-01, 1.915848500199256454e-01, 7.511649888746367854e-01, 8.763453281501396575e-01, 4.099835310836286856e-02, 9.632288031908867731e-01, 4.120426345405302504e-01, 9.193533979559751490e-01, 3.983377332037829621e-01, 1.288801095817638520e-01, 7.111730401088680598e-01, 2.895418256937175028e-01, 9.876529377889671502e-02, 7.923843741660229201e-01, 9.191254542968468194e-03, 7.141737793004443446e-01, 4.945028813029852532e-01, 2.055130742761929891e-02, 8.053852540808053018e-01, 4.636093398561933476e-01, 9.844815554493364651e-01, 6.041100450604601491e-02, 9.463771223267047894e-01, 9.914670088050963059e-01, 7.985865071736645282e-01, 7.758565948240201404e-01, 3.187900343675265091e-01, 8.717444635528268648e-01, 2.779222440073116779e-02, 7.408052832698970303e-01, 4.380977357391491189e-01, 3.063866070215741644e-01, 4.842292817178155961e-01, 2.095983225082373169e-01, 1.070354364712970685e-01, 6.827308345804744549e-01, 7.093497126388325080e-01, 9.499940399527336821e-01, 4.415225204721462959e-01, 9.391052027724060558e-01, 4.855124812751860919e-01, 9.946116923532496434e-01, 2.834524166433320391e-01, 2.076684698759538317e-01, 3.736345898070485005e-01, 6.611413369532596063e-01, 6.985522617934292189e-01, 7.789456181324770634e-02, 6.534181322129011260e-01, 8.962115381415184379e-01, 4.068772964383686741e-01, 5.589454723949188741e-01, 4.489564352337435116e-01, 4.735731863271806508e-01, 3.905833570893350037e-01, 4.136648482249796754e-01, 8.190617955675326689e-01, 3.708222314241281237e-01, 3.034552924443885691e-01, 6.030376722205280093e-02, 4.253601982701960549e-01, 2.539600742015473700e-01, 8.893942960139498144e-01, 7.968462568873848628e-01, 3.373875728355226755e-01, 3.700421217658695916e-01, 6.182241306559562721e-01, 2.190298282949164899e-01, 6.662974903204840205e-01, 7.909502080182485573e-01, 1.108159868392838421e-01, 2.266465512724088194e-01, 5.524316835007356818e-01, 1.518401849626056510e-01, 3.304306149684860805e-01, 7.020104486278736511e-01, 7.992596892335555037e-01, 3.764498139072383620e-01, 6.414356233803226726e-01, 8.294657942708765219e-01, 8.686446239545844161e-01, 2.510270509970801145e-01, 1.955152608804572589e-01, 4.824161462991959082e-02, 9.504224671552442549e-01, 5.740516330557331459e-01, 4.012132058026471881e-01, 8.696946870188504430e-01, 7.543927977453822598e-01, 6.232095125320646911e-01, 6.117236723072220217e-01, 2.049072491498063753e-01, 9.955591585447801650e-01, 3.689441120941582830e-01, 8.542405859471825791e-02, 1.903263602743799146e-02, 9.459152340271638204e-01, 8.058961071519777919e-01, 1.162618619164463851e-01, 2.005404597442480008e-01, 4.224573783275151900e-03, 8.457874198801877963e-01, 4.540014667407388238e-01, 3.253081428481272575e-01, 7.414015250912586730e-02, 4.482265866277829192e-01, 4.289197848746392205e-01, 6.488488636412638177e-01, 7.872003825916354391e-02, 8.038219908681539794e-01, 3.206730926086089339e-01, 2.718458160926232048e-01, 5.112390913906189605e-01, 3.107058480735261918e-01, 9.701273625924089483e-01, 2.861883548121622600e-01, 6.946294483370443196e-01, 3.793693454623272426e-02, 1.067375481841932316e-01, 4.270014560837697704e-01, 3.121349499237449088e-01, 1.739080745102101165e-03, 1.411543109416068531e-01, 2.853456909504755168e-01, 6.175298072863947274e-01, 8.677132113630285637e-02, 3.658172609867690189e-02, 2.477648226615021543e-01, 6.535164486111320059e-01, 6.033608344111650312e-02, 8.229871412717248980e-01, 9.309990942807560010e-01, 5.502268828101019027e-01, 3.839311106707897769e-01, 7.940266865077582059e-01, 5.762224547402930996e-01, 1.616995383456067414e-01, 1.528545538173795293e-01, 3.518025271488868788e-01, 5.046548857879806088e-02, 6.266598273535202157e-01, 3.370543272217876307e-01, 3.480743503281300555e-01, 4.947523340096491862e-01, 7.402596761954174376e-01, 6.867662644640218916e-01, 6.107313128338681674e-01, 8.199711704419422320e-01, 9.470526006262671714e-01, 1.862424038230847401e-01, 2.647199529394446693e-01, 4.453402674946967954e-01, 7.288021507336420179e-02, 7.750546646735265721e-01, 2.678136223391854864e-01, 6.105900934552086490e-01, 5.458196045116783246e-01, 7.178167897399542197e-01, 9.653497624391533805e-01, 6.222931948263101809e-01, 4.703259303124653345e-01, 2.031079941552279278e-01, 4.802687227295673322e-01, 8.904496761989465492e-01, 8.725729316301737981e-01, 1.841955910915094585e-01, 7.028142514333415303e-01, 5.698801060429894427e-01, 9.294658371047173073e-01, 6.059399707976164118e-01, 9.065351735289377266e-02, 3.970346068204232415e-01, 2.311611449972559018e-01, 9.322364873285953202e-01, 9.521713576062638129e-01, 6.007377793423251955e-02, 7.350388253859566623e-01, 7.610689547882732997e-01, 7.563948988389367356e-01, 9.684366803158552806e-01, 8.758275814866863795e-01, 8.843233469270688207e-01, 6.637340247398891835e-01, 8.804306080737474005e-01, 1.194679138636329518e-01, 5.062218542299110613e-01, 4.258016516114169758e-01, 1.780578515399539319e-01, 8.427372852547645454e-01, 2.551174884282297883e-01, 7.327850851937033339e-01, 9.468044701517136508e-02, 6.270349475600180966e-01, 7.261119292323404695e-01, 2.038645111021521739e-01, 9.889841735529391054e-01, 2.022939922856506201e-01, 4.113475272657272641e-01, 3.792454849376346027e-01, 2.690505085173596767e-01, 2.004658676969485187e-01, 8.513974721625565678e-01, 2.199934732726664122e-01, 7.214752215371962318e-01, 2.242575163161683940e-02, 5.618617189746107909e-01, 8.462350438251214912e-01, 4.052989612135079467e-01, 8.379291579668906031e-01, 8.140602035253615698e-01, 7.967083308882133563e-01, 8.641165001240710408e-01, 4.252649583711418657e-01, 4.093360701027991544e-01, 4.305072306346684474e-01, 4.675330547063681896e-01, 7.938651683715695073e-01, 2.295968655805051273e-01, 6.434373470687423380e-01, 3.144562815717809323e-02, 8.765461970418118032e-01, 9.132939314033136080e-01, 9.566822340506410116e-01, 3.698587959661912561e-01, 5.634456632461221082e-01, 7.578956442362216883e-01, 5.439677094827986004e-01, 2.778436057641863188e-01, 9.092562866897548890e-01, 1.572618883018232772e-01, 1.514816089925760667e-01, 4.366289330207210884e-01, 8.339257836318433315e-01, 9.468613616925740661e-01, 6.951441474543791355e-01, 5.817397566190876113e-01, 7.127639689908660259e-01, 6.630305777515485000e-01, 9.015642509566587082e-01, 2.994141012726309614e-01, 2.789253993484767588e-02, 5.549973637869096699e-01, 4.878325632720657556e-01, 2.159827334731204695e-01, 6.428484882780676202e-01, 6.705126409842667723e-01, 8.973185613608406497e-01, 4.676294199074824687e-01, 6.302458907355670270e-01, 4.232408217759311975e-01, 6.215807840124165651e-01, 1.063072861033802913e-01, 2.953077558448592987e-01, 4.262951649315896430e-01, 3.678512170724214658e-01, 7.033456527198685970e-01, 6.810976498143972435e-01, 4.635655093352831768e-01, 5.125669162963368830e-01, 3.404837220348267968e-01, 4.783306562931214923e-01, 3.902835211322470688e-01, 2.340908317266141292e-01, 2.504824073805245743e-01, 5.827124168752462197e-01, 1.854003839664468689e-01, 4.073292205712924496e-01, 6.875364575965976499e-01, 7.341034115486185785e-01, 8.035826217838639707e-01, 1.093197278996592831e-01, 8.634181180403053268e-01, 2.055237901473560003e-01, 7.437359184926132238e-01, 4.887403067517710475e-01, 3.050549163548718634e-01, 8.851508085370045631e-01, 9.698929117901547992e-01, 2.952396460925476585e-01, 5.690482949609007024e-01, 8.497357173315249756e-01, 7.942636498775856868e-01, 2.653644722301483697e-02, 8.291941467509297281e-01, 9.018471635701438283e-01, 3.473649676661134250e-02, 6.083246274377278606e-01, 7.815496362578914225e-01, 1.683936745080241160e-01, 8.390599932659147386e-01, 5.460886507088873465e-01, 8.725611136739543916e-01, 7.280604275318062202e-01, 9.022900341380457601e-01, 7.743583941396148251e-01, 6.290231306813417467e-01, 1.466438584650398003e-02, 3.039590861260643706e-02, 4.289338959371506999e-01, 8.574867404494432854e-01, 2.617316825018848464e-02, 7.846650778082742139e-01, 4.975415423830172323e-01, 8.969463860999212779e-01, 2.342574250500103832e-04, 6.945482079303959555e-01, 1.740048043733199643e-02, 8.387146571988560728e-01, 8.730802380627209619e-03, 6.542309549888007947e-01, 6.255913590837290927e-01, 1.353421435436089615e-01, 8.231225522853220511e-01, 5.789848203734752202e-02, 7.046913730726667158e-01, 3.599862665836596198e-01, 9.649527666728728859e-01, 9.153330218193269641e-01, 6.010048033100947595e-01, 1.542482682716490583e-01, 9.891425789794248136e-01, 4.248907580482917945e-01, 6.257073960086377840e-01, 7.150465308022877498e-01, 8.644374525619417104e-01, 6.839064697850981700e-01, 5.478696310443698092e-01, 3.153769409589456396e-01, 9.270089325792899571e-01, 2.133101754725333019e-02, 1.437130384652013371e-01, 7.200915126648496090e-01, 6.315793394531841187e-01, 9.888328187345742926e-01, 2.978249408094091333e-01, 3.016069511304620421e-01, 7.149018665772817194e-01, 3.242886390507276895e-01, 7.253293264056458467e-01, 7.997251171104312606e-01, 1.354565158694991944e-01, 3.277537468774808782e-01, 8.755521580353372579e-01, 1.164563306223676854e-02, 7.553340247996526147e-01, 2.992407614123777579e-02, 1.056258463567407400e-02, 4.700210888341906923e-01, 1.845640969129002107e-01, 7.996682808313779756e-01, 4.786556529523490755e-01, 7.758614553756995047e-01, 5.053701891819152303e-01, 9.440373912440914728e-01, 2.602064565438921839e-01, 5.527247523161114839e-02, 4.314998607628520166e-01, 3.790099322503454049e-01, 8.049378755949454511e-01, 5.720481114790457733e-01, 1.054558721274544558e-01, 2.604059143862217374e-01, 9.637922425667845294e-01, 9.132980465350281074e-01, 2.416942629566944806e-02, 5.732836200710057506e-01, 2.209854293220455124e-01, 5.609675095291855040e-01, 9.660612888416213462e-01, 2.608226773137165000e-01, 4.006513406482477002e-01, 5.468884435780542175e-01, 1.917034068956460224e-01, 6.197070362404423216e-01, 1.562136745941993810e-01, 6.273341797201912318e-01, 5.989869986586764394e-01, 7.432090464761493820e-01, 5.342680774975230307e-01, 3.189503095139256672e-01, 3.891532214679694901e-01, 4.563388707484331563e-01, 3.228623271292495045e-01, 1.686990382785441556e-01, 1.843613540437944592e-02, 2.562813385498911023e-01, 1.517156347847091191e-01, 5.511624265671621892e-02, 2.413364723499970832e-01, 7.923981731621605462e-01, 5.450611136814943469e-01, 8.608736055740223714e-01, 9.641955610821408840e-01, 8.328902709162839813e-01, 2.184039603580348599e-01, 8.069103321464229372e-01, 2.164819819661599823e-02, 5.003430303176196192e-01, 8.808441752871062347e-01, 1.228538251447060664e-01, 4.112116386155379999e-01, 8.681503154119194487e-01, 7.281311755984312128e-01, 3.335133067557340403e-01, 7.686109175206454758e-01, 9.695837754923321283e-02, 2.696086449830434884e-01, 9.366662968987377047e-01, 2.131840611424380347e-02, 8.485280456895576140e-02, 1.741988526979904028e-01, 7.879517335779230303e-01, 4.373196705660290506e-01, 2.226103801017251249e-01, 2.844398455924717073e-01, 1.962274985970832719e-01, 5.254508146999951196e-02, 5.180590814611786277e-01, 8.413956501472872329e-01, 1.073063470583860424e-01, 1.440950059002867878e-01, 8.805975428365878654e-01, 7.443654030662291143e-01, 2.646337694207810398e-01, 6.986421119038132010e-01, 3.955290377518026479e-01, 8.151313827478952057e-01, 2.716319417974070172e-01, 6.138688517840378278e-01, 4.164831847151235222e-01, 2.247217241816693023e-01, 8.573324591904226688e-01, 6.368801592604115269e-01, 3.167334595180444912e-01, 5.763884522229796303e-01, 3.173970014804713413e-01, 2.165008695924629939e-02, 5.153627299822751695e-01, 8.194160795478476755e-01, 8.899185537846292515e-01, 6.524285469104659230e-01, 8.922552468120431568e-01, 8.325507409188057650e-01, 6.868151250393079721e-01, 9.556709943118631978e-01, 6.948083181179681711e-01, 1.882098514659966415e-01, 6.858675138088777823e-01, 2.920048537113164588e-01, 7.767522916414499878e-01, 9.279049129199141710e-01, 4.175367988327230995e-01, 3.714823377367454382e-02, 3.325051695931187101e-01, 2.719186741017057263e-01, 3.558684780934860403e-01, 4.071113370045437163e-02, 4.646508502705967159e-01, 7.915250908560791387e-01, 1.793582263329076276e-01, 6.050987227085702358e-02, 2.049959890642907498e-02, 6.997008522498355809e-01, 8.901835367183320580e-01, 6.649063480852341890e-01, 5.237781921214053060e-01, 6.452837964853691544e-01, 9.305949537949197437e-01, 5.889913234783270696e-02, 3.215520674260792244e-01, 9.833484419502880325e-01, 7.528442756902428146e-01, 1.000129130283739926e-01, 9.442423416232583744e-01, 6.186158504132266422e-01, 6.028238707639121952e-01, 8.514298126501751787e-03, 1.173118865901622843e-01, 2.107717014195766292e-01, 3.137884028326901609e-01, 5.829449074155229615e-01, 7.269234249339550091e-01, 7.973156826804677078e-01, 8.831993536895994534e-01, 4.204705685583186026e-01, 6.481916990135013767e-01, 9.574879696348967961e-01, 3.342827741813927389e-01, 5.101906163892822033e-01, 5.852257885594837061e-01, 9.461769302922538039e-01, 1.302939836244161598e-02, 1.665840820251933141e-01, 9.754710550720641082e-01, 3.256745230338051189e-02, 5.432031933903896936e-01, 4.957306517598438766e-01, 6.291903681409227733e-01, 3.166011469573661308e-01, 1.438639973233771588e-02, 2.942246256873113364e-01, 6.220248621478869921e-01, 2.147911548534994514e-03, 4.884112683005435995e-01, 1.684913450945724478e-01, 3.145108015162151882e-01, 4.324380708297522746e-01, 2.660186168398189221e-01, 7.690460191835383208e-01, 8.695634147696669203e-01, 8.392698269639756181e-02, 5.230524057340414368e-01, 2.456845649778104379e-01, 1.326307183084979302e-01, 8.842573427151627641e-01, 7.169231222761948130e-01, 3.246715833138205110e-01, 5.937599870019415471e-01, 9.211405802526346775e-01, 6.125037340281023202e-01, 6.930232322680681678e-01, 9.728166567420683253e-03, 9.142872916730325761e-01, 7.531628063413997598e-01, 9.800919938131477105e-01, 7.878982620850810692e-01, 7.195002538721830820e-01, 9.179591919619729534e-01, 3.386137691102500402e-01, 4.903435458024046900e-01, 5.951848481657315282e-02, 7.666723385270872715e-01, 5.509441945702180377e-01, 7.822380539231370555e-01, 3.414053795091920307e-01, 2.540337063629258818e-01, 8.568904238807525386e-01, 6.138122958772945781e-01, 8.480170100248227150e-02, 2.612079705354772297e-01, 2.326330584357972353e-01, 9.628513964998703933e-01, 8.767704036330474793e-01, 1.276581868021563482e-01, 9.138734791356601939e-01, 8.457369185515322130e-01, 1.470721816209719646e-01, 2.623777729145194137e-01, 2.212908730808675339e-01, 8.439474404119294837e-01, 7.348369323601443570e-01, 8.602374109072424835e-01, 4.370347824288432492e-01, 8.599584969765436959e-01, 7.291731056649966014e-01, 9.523585169789421379e-01, 9.623267441497577179e-01, 9.331116978011706475e-01, 7.396751252840282342e-01, 6.972889228988736754e-01, 1.592944578639311770e-01, 9.973541300144813659e-01, 1.689769652645114195e-01, 2.802648509035202129e-01, 5.940142481132750785e-01, 2.307458637096027887e-01, 9.959630488307312790e-01, 2.486420734805758204e-01, 9.110208755503724776e-01, 2.927014471150635733e-01, 5.092727526920998171e-01, 4.852223357521009278e-02, 2.411520995520815280e-01, 7.853500733893091779e-01, 3.619493717552368234e-02, 9.037454319410468395e-01, 9.490185285778451885e-01, 3.165746880636503557e-01, 6.383440685984931307e-01, 1.294637990649980808e-01, 4.912497372289701403e-01, 9.716350426663840079e-01, 1.329135332523410928e-02, 3.258323830663586995e-01, 1.156232938979783881e-01, 6.143555678638594753e-01, 9.384755182362821690e-01, 1.970402238344837464e-01, 1.538299061580193361e-01, 9.764232328104268666e-01, 5.957964370711320568e-01, 8.782166882264803576e-01, 1.850251292828802019e-01, 9.181672942645410229e-01, 4.811664824562770781e-01, 5.925325370977871930e-01, 8.431961835858178267e-01, 7.534387351439831848e-01, 3.454676736672218640e-01, 1.276653892695498727e-01, 8.015584440190129945e-01, 9.323215800387433250e-01, 7.058490046459089395e-01, 7.212914222049836566e-01, 2.114182642440232684e-01, 2.909456414190408347e-01, 2.674994166492636882e-01, 6.950569110486177760e-01, 9.778718833382950004e-01, 1.192346795493182537e-01, 9.997073408115142445e-02, 9.558260594324379245e-01, 1.411649588839675729e-01, 4.557424491805427968e-01, 5.481158769795203139e-02, 3.378807104845540921e-01, 4.724325485773700484e-01, 4.745385115536016746e-02, 4.816126710215682394e-01, 3.051215671667224516e-01, 4.143751718532956430e-01, 9.076597030095003849e-01, 9.536742928964564436e-01, 8.936700410712081766e-01, 9.713688056882482380e-01, 7.793465468149127773e-01, 7.365003704634510706e-01, 9.392812722672888581e-01, 3.348620666464804385e-01, 3.827400935551331096e-02, 6.796533079293531898e-01, 4.988167923306423002e-01, 9.039936536499768582e-01, 9.490765992441374532e-01, 3.774940119224712287e-01, 3.349128775081548492e-01, 4.084316786702654051e-02, 5.482649333495420718e-01, 6.572292519621093509e-01, 9.995396281231514468e-01, 7.741987382275763441e-01, 6.358221408202949787e-01, 9.370933862893513489e-01, 7.910344204661747328e-03, 6.574739848861699265e-01, 5.023729830697957199e-01, 8.904345354942848623e-01, 3.451633075270919004e-01, 1.883723285778242384e-01, 8.301981784462330038e-01, 4.387642921982635169e-01, 3.610936400117788492e-01, 7.353266587874084381e-01, 7.482236368249464142e-01, 3.350034832538643093e-01, 9.833926222281832441e-01, 3.143100226771213257e-01, 7.841045431777327046e-01, 7.572173355907807490e-01, 3.780914463531737102e-01, 7.957970169981755104e-01, 8.978572114113696490e-01, 8.905482765975293313e-01, 8.612718701960482282e-01, 5.204082988096799811e-01, 9.839696421599937182e-01, 4.063107918815300756e-02, 2.883818836526176321e-01, 3.678715937651970136e-01, 9.445203595813386199e-01, 1.705202608664262154e-01, 6.271980796929442770e-01, 9.003665240390642532e-01, 8.812101501469626896e-01, 3.750321300745745878e-01, 4.481291608762029699e-01, 6.758211016150742489e-01, 5.437906420956647446e-01, 9.477436294750406498e-01, 5.626663530018156667e-01, 8.258767874998012015e-01, 9.209998374463469473e-01, 8.337790135419172188e-02, 1.369331367077120665e-01, 3.195089761981141918e-01, 3.959437188296415222e-01, 3.176147132205814905e-01, 6.023469823868216055e-01, 7.852405799717241397e-01, 2.799519262446504286e-01, 2.418772036427652150e-01, 3.152531644941215516e-01, 1.689077831304788002e-01, 9.604266635152085563e-01, 9.527536156699105696e-01, 4.057366429398753249e-01, 4.052483736928458868e-01, 1.349829691047082780e-01, 7.945077363743603405e-01, 3.483992242974698894e-01, 9.708958222625990730e-01, 4.387796415685710771e-01, 4.511453286908025800e-02, 8.822064786004705228e-01, 4.938261913732043262e-01, 4.345636251260914240e-01, 4.285884456301385370e-01, 2.607461502516484342e-01, 6.090137536201439133e-02, 8.136529661465853325e-01, 4.430995926959834796e-01, 4.157282881605951497e-01, 3.188911548817254249e-01, 4.408039570827801401e-02, 1.946163474460901044e-01, 4.494848830502755632e-01, 8.764075659707808441e-01, 4.508442229323180728e-01, 1.934499076634036974e-01, 2.595933386479143956e-01, 6.214763408735770600e-01, 2.853148783779007602e-01, 3.534737272944478426e-02, 3.309589322440660841e-01, 7.075681363302791516e-01, 8.147194573935050421e-01, 4.806979343725459874e-01, 2.113893007952057923e-01, 6.719611145766789251e-02, 1.848177904969453833e-01, 5.878341089149972110e-01, 4.286790097104887232e-01, 6.420410692729860980e-01, 6.059713420571817277e-01, 1.449472951608275252e-02, 3.146314093288029023e-01, 7.996122094686204385e-01, 7.408350282285677268e-01, 2.792172493714840109e-01, 7.078820670336607446e-01, 9.151926886129417849e-01, 5.304004945272020599e-01, 8.375847925063237831e-01, 3.635354775144982731e-01, 2.671440923258338596e-01, 5.033886236706258677e-01, 6.756371662118823562e-02, 7.350901850393651848e-01, 3.927613929930769410e-01, 8.738757165163127949e-01, 3.295680356111891363e-01, 2.667992824312183653e-01, 9.736174774066969073e-02, 2.851875629865424089e-01, 7.992240024274988031e-01, 4.837065765079705537e-01, 8.615823854808234428e-01, 3.243544335413548474e-01, 2.385948972143455415e-01, 8.907327011610046696e-01, 7.146291835484990251e-01, 5.429767812345261957e-01, 8.166693856927929873e-02, 1.968842349885717713e-01, 9.592838686168106976e-01, 3.282471677007964272e-01, 9.160625147569808613e-01, 7.010736057545211564e-01, 9.121871631284562687e-01, 2.002752466818892019e-01, 8.620589002852316884e-01, 6.127138048148018656e-01, 8.180868023668003142e-01, 4.312273657761876988e-01, 2.325371276575748658e-01, 4.577077892574006324e-01, 2.090268778744231448e-01, 3.191020480747228105e-01, 5.639794355181391161e-01, 1.573635409913135275e-01, 6.506815306621076545e-01, 3.343968886354428682e-01, 1.781484143813186205e-01, 5.582792651786719906e-01, 2.005114082109905049e-01, 2.093076576788405474e-01, 6.208724153833923287e-01, 9.343070519124537787e-01, 2.821500905706564311e-01, 2.556010106937556814e-01, 6.380432954287120761e-01, 1.607899243824882363e-01, 8.458477840694479388e-01, 3.191928631047540876e-01, 6.734330124115129879e-01, 2.286019542152679940e-01, 9.012961858268156989e-01, 2.599357549025916869e-01, 5.716571605732988504e-01, 3.952454369559749714e-01, 5.654078482603143163e-01, 6.238024604413973107e-01, 4.538191576943213096e-02, 5.908686980031395697e-01, 6.192518359981803444e-01, 7.253128775493121738e-01, 3.693105533324170797e-01, 5.207232163419284188e-01, 4.506070804930795703e-01, 3.421639362067672718e-01, 2.108825526300089903e-01, 1.233113657078801217e-01, 8.737695178453012135e-01, 8.263852239786536602e-01, 5.646527087389817678e-01, 4.833295518372121569e-01, 3.790995971027683042e-01, 1.856863121264058433e-02, 3.687764488051684109e-01, 8.612802431300351502e-01, 7.540508958366024528e-01, 3.694417147161987436e-01, 7.178981097584793414e-01, 7.742712289348348265e-02, 8.261739857159932088e-01, 3.090696994614374749e-01, 1.990388978669839215e-01, 8.234013956526474443e-02, 8.935228907613146365e-01, 5.090588751243774884e-02, 3.649899545982410176e-01, 2.577646355631805219e-01, 5.617312614217085942e-01, 4.118031226946265999e-01, 8.376222032863790412e-01, 3.606309139013813558e-01, 8.824629152585434788e-01, 8.634362069844910836e-01, 3.543296297856555338e-02, 5.759995734048319882e-01, 8.637815204762903099e-01, 7.392069788844687732e-03, 8.289709613834267410e-01, 2.023331408775052020e-01, 7.059403533803033648e-01, 6.663653111579123101e-01, 1.344793904317895528e-01, 8.679206208026583047e-01, 6.044413287228640463e-01, 6.929540068547906939e-01, 6.232017868477669476e-01, 6.609696338461668041e-01, 9.011382935495928503e-01, 4.104990425615359650e-01, 3.213780125347123762e-01, 6.374467316146015250e-01, 7.421393606866564241e-01, 3.565282979740133085e-01, 4.165270755005670567e-01, 1.274116881210668462e-01, 2.619906127994772044e-02, 6.045782486755336693e-01, 1.061110556223144874e-01, 9.678773237396689488e-01, 8.888503480083215225e-01, 9.300672878074545125e-01, 3.827495118568639554e-01, 6.650063404195715178e-01, 8.555088583686424331e-01, 4.529105734887347579e-01, 2.317003920623509350e-01, 1.757297529490619292e-01, 1.556645715976036903e-01, 8.658723936869178184e-01, 7.957301668006917517e-01, 7.527630387136405865e-01, 6.681745729385184518e-01, 1.535224468145504617e-01, 7.569589246176247621e-02, 4.996707479498920801e-01, 1.408797954309394529e-01, 8.513866611683018615e-01, 7.078489610830871470e-01, 2.733597110017096377e-01, 1.681574567589384783e-01, 6.822431336280448955e-01, 7.748522296281616928e-01, 1.381031729071798553e-01, 3.257925643351183148e-02, 4.836395996156193644e-01, 1.201490269591650728e-01, 2.621128619661782233e-01, 9.533284293113436503e-02, 8.163088872041257549e-02, 8.702842218661067664e-01, 7.669534522277268174e-01, 6.695375001096866008e-01, 4.592644332591187539e-01, 2.884300030777370849e-01, 5.494122402526886439e-01, 3.768322382535733706e-01, 9.886331476987291200e-01, 3.683797870194751023e-01, 8.977998644027647135e-01, 3.962505713748851188e-02, 5.946201716527220738e-01, 9.409605523518367320e-01, 2.270173876150912984e-01, 5.443067900815944382e-01, 6.891856096663251385e-01, 1.059735943165789410e-02, 9.516730129856985076e-01, 6.392209918069862162e-01, 8.254367429203041118e-01, 2.701608738238330254e-01, 2.702191597329355321e-01, 7.190349522090476730e-01, 1.696615990213819480e-01, 8.268186888820318048e-01, 2.934443917501534105e-01, 8.976241888474367769e-01, 6.365135714117792221e-01, 7.290404176366377387e-02, 2.804904393881199609e-01, 7.753641122173373645e-01, 5.798435258962705285e-01, 7.713240526283309251e-01, 5.955306555375343702e-01, 4.288982558930288791e-01, 3.201872822909431204e-01, 4.606765571379587976e-01, 1.215854533632785284e-01, 8.973400790455031695e-01, 8.593148735474988031e-01, 2.987697846506335610e-03, 2.166100432834517919e-01, 1.462111651100080935e-02, 3.025776839348048308e-01, 6.299579958039729366e-01, 7.844715437829204996e-01, 1.329555901002033580e-01, 2.654447936192395052e-01, 3.875425153745811757e-01, 4.317280302522319979e-01, 7.478707444769076840e-02, 1.991839246037036826e-01, 1.490766660576016145e-01, 1.180067930053946279e-01, 9.118817928414657548e-01, 5.523097782529796662e-01, 4.407358514126737403e-01, 4.848394640329841687e-01, 6.906337333800285361e-01, 6.937706112247545853e-01, 4.783246046456235412e-01, 6.924339341840800577e-01, 2.907299483645184868e-01, 9.875308101534768790e-01, 7.707560293553195052e-01, 2.682205565612557074e-01, 6.156031192587582135e-01, 2.495665754200513953e-01, 1.080206450710027577e-01, 1.784903565109508244e-03, 9.829363179864365474e-01, 7.671510181621148394e-01, 6.791514531088581608e-01, 8.774827018754813857e-01, 2.991955963945057695e-01, 5.319024027389123166e-01, 1.744642830212087270e-01, 4.364933944230635632e-01, 3.474103812850330986e-01, 1.603559505894887605e-01, 7.992415888066151108e-01, 7.661743667101685862e-01, 5.618642956263888433e-01, 2.292667568813206991e-01, 9.288468672157209616e-01, 6.378171898793945083e-01, 7.192402529417117885e-01, 2.000915261727100325e-01, 1.948171579817987997e-01, 5.711626317330258384e-01, 3.912410348317260089e-01, 7.415933786829126406e-01, 7.678193103593941027e-01, 3.761315939168975997e-01, 4.503767904866586708e-02, 4.313321891474466985e-01, 5.691333548534244224e-01, 2.684420405104218643e-01, 4.940519687235945256e-01, 6.565680273468542660e-01, 7.168215628982251009e-02, 3.385088192016516562e-01, 8.096275199030522618e-01, 1.308716301888565858e-01, 7.448442349711735799e-01, 3.655946184759516493e-01, 1.792205292310424525e-01, 5.512137723436405512e-01, 3.820759917780416209e-02, 1.714589300618753476e-01, 3.577912121514253974e-01, 5.882564774284846365e-01, 2.780538108911061457e-01, 5.399339744360670545e-01, 7.640762059621976354e-02, 5.346029079036724863e-01, 4.145963272304986069e-01, 1.816499394017717928e-01, 2.334233475969383839e-02, 7.246497888066233406e-02, 9.159317830021903584e-01, 6.384631218899352589e-01, 8.166245981160679124e-01, 9.150795069064554532e-01, 4.421613535366029080e-01, 5.437209022224279709e-01, 3.371581367148613340e-01, 5.522500082618252426e-01, 8.457612574593350585e-01, 2.950715803104906332e-01, 2.177674549769006151e-01, 7.132769224791395135e-02, 6.060717221840282720e-01, 4.677231873123873784e-01, 8.987877815879536936e-01, 6.682742068953326786e-01, 8.974427858166756922e-01, 3.597594294747871180e-01, 9.363270283067950395e-01, 4.382028169798719008e-01, 3.173076205931979477e-01, 9.447330382260609172e-01, 5.515388151326173771e-01, 7.072863304600012224e-01, 6.211323178143077772e-01, 2.723079699200287584e-01, 4.013007465268322305e-01, 4.836214660747042982e-01, 3.513022323235839850e-01, 5.978917038447000287e-01, 1.043866853946440326e-01, 1.154379672847496152e-01, 2.786035941612532429e-01, 3.949602804373728571e-01, 5.058079983684944381e-01, 6.839104738882783030e-01, 2.756151561353947232e-01, 3.082888357548199676e-01, 7.777369801405845662e-01, 2.264645157471499304e-01, 3.743172135966964520e-01, 9.728212529085527027e-01, 6.503957533954927150e-01, 8.132851355037041818e-01, 2.984764127264050160e-01, 9.530836092768240064e-01, 2.045229416272677514e-01, 1.767800127422671785e-01, 1.914648113332234891e-01, 1.732975798050691296e-01, 5.860909708480751545e-01, 3.864735358090643502e-01, 6.357795478545112955e-01, 9.624194867959477706e-02, 1.660232928157677201e-01, 7.065455866396688211e-01, 8.404237658660745902e-01, 7.286322252470833760e-01, 3.348827686177365259e-01, 3.147312791258347064e-01, 6.693271768956692291e-01, 2.416303440382438494e-01, 7.305666320442442130e-01, 4.052002895392546877e-01, 9.004577412656662450e-01, 2.831116596070316627e-01, 1.726839009566319694e-01, 3.290186528234866903e-01, 1.730108381746512936e-01, 7.141184960219063571e-01, 1.823316173373121241e-01, 7.294011780417413160e-01, 3.638433390811989243e-01, 5.937036210596995378e-01, 2.756511981039193593e-01, 4.244534199329848961e-02, 4.017105070306007941e-01, 2.375659561594740260e-02, 5.194433296357507945e-01, 4.895309066027545564e-01, 8.109936135847032324e-01, 9.562977107212677907e-01, 6.393315212605957809e-01, 7.967096813099794339e-01, 1.955289987205039159e-01, 3.397370050093816429e-01, 1.908321913418661586e-01, 2.883054402076329348e-01, 4.216917059264480017e-01, 2.850449055752784511e-01, 5.153777143178233100e-01, 6.313565101469186258e-01, 7.798770707777367139e-01, 5.429875223616408286e-01, 1.277981350765333701e-01, 3.961530455732803491e-01, 4.155763587581714491e-01, 7.800886453002155996e-01, 2.560426949401438113e-01, 8.448541910066212912e-01, 8.359387388145351760e-01, 1.431118781683800856e-01, 4.360622995738130947e-01, 4.897275238482254323e-02, 2.508271140583613890e-01, 6.921525763226225869e-02, 4.509829537227315055e-01, 5.904043592029508680e-01, 7.207402377634686275e-01, 1.046543173770858870e-01, 8.309805011633761840e-01, 9.285244967987709153e-01, 5.279743957659330245e-02, 8.478311880605341466e-01, 1.431166202245742203e-01, 9.185610913852232384e-01, 3.696139235831505387e-01, 6.408855337186054602e-01, 4.452651952287411258e-02, 9.643087700664190187e-01, 1.588768228797615700e-01, 2.672054303961312050e-01, 5.193730018955901029e-01, 7.997000591290712723e-01, 2.562349541757523719e-01, 8.870626848660351227e-01, 3.231853461888398865e-02, 6.184112729705791844e-01, 3.214185848672796997e-01, 6.392228056811323222e-01, 6.493664610616132205e-01, 1.559888931162633219e-01, 4.353565665160354925e-01, 4.844342460360035463e-01, 5.356029581399941453e-01, 6.368882436501809297e-01, 5.688202011420622206e-01, 7.881044314787621907e-01, 8.065841564450568768e-01, 5.340985654792731463e-01, 3.755369715259782026e-01, 7.456222070373510480e-01, 2.136802197783413057e-02, 6.323295022790960118e-01, 5.371836442910108422e-01, 5.737877140021218070e-01, 2.494447501494721775e-01, 9.141850544973437742e-01, 3.583794752222997371e-01, 4.065486926651498689e-01, 9.959571527689973225e-01, 2.863175285672658887e-01, 7.468081562137708351e-01, 9.706415582909235784e-01, 5.661035729789583026e-01, 3.538168804837732995e-01, 3.367721381330931324e-02, 6.578378284876649218e-01, 5.481407191945789625e-01, 3.826133023451804838e-01, 8.220920683151583530e-01, 7.679288805463950762e-01, 5.123574920890270334e-01, 9.980262947821699759e-01, 6.276427809574000038e-01, 7.322861930333597613e-02, 4.067782942753165321e-01, 4.254556761960245903e-01, 2.116965455498049931e-01, 6.642144578675472921e-01, 2.488015095619402484e-01, 7.739569224417218729e-01, 4.777406413887944070e-01, 5.460704438246061221e-01, 4.691066244726959100e-01, 4.509667957285530826e-01, 2.685501316647515013e-01, 7.602422150220671249e-01, 1.948459966454572645e-01, 1.569997834324620423e-01, 6.863373465948408025e-02, 7.256139530329996923e-01, 4.839693754356604039e-02, 7.542469111009070248e-01, 6.345143285493917151e-01, 8.366631080381675689e-02, 7.535244775417392349e-01, 7.087448402419267435e-01, 8.222280564630947419e-02, 8.520023184258342930e-01, 1.836237871289629342e-01, 3.094325197940697367e-02, 5.531859205780724764e-01, 4.837706835625468216e-01, 4.588446904167773344e-01, 8.669617917601273316e-01, 5.657889790942904895e-01, 4.071029901479526480e-01, 3.614060836439982327e-01, 4.945077335045225397e-01, 4.621180635509126305e-02, 2.473124357452584354e-01, 4.975298487706873440e-01, 5.093000022310567587e-01, 6.854079238571639809e-01, 3.865244488566708103e-01, 2.265847025396482695e-01, 4.196133402598062889e-01, 3.407059757846839787e-01, 2.864789452711016815e-01, 1.032286246008311259e-01, 6.721519269070505009e-01, 3.834259500949632193e-01, 2.858238761240318171e-01, 1.659933443989523860e-02, 6.998593595906811293e-01, 6.258036034369661715e-01, 6.930943283269577759e-02, 1.661401901395583858e-01, 6.591475788135041647e-01, 1.135550565903763465e-01, 6.652120405495370870e-01, 3.268538058433538285e-01, 2.766418740320981673e-01, 2.744660927724215105e-01, 4.269280363853500959e-01, 3.820924852364646768e-02, 8.402380991026124901e-01, 3.934706689832823678e-01, 1.115017537552039223e-01, 5.400572055189138965e-01, 9.311707557894205456e-01, 3.051684146707728806e-01, 3.260658249100353290e-01, 8.105409295379328860e-02, 6.433896875445708208e-01, 7.859576990740914093e-01, 5.350980806761708175e-01, 7.957462063769707994e-01, 2.903914251807301339e-01, 3.685455448545595369e-01, 5.076847391866771975e-02, 7.770496598557466994e-01, 3.584626664669536278e-01, 8.212228244321144455e-02, 6.856512423224192521e-01, 8.732043635394537429e-01, 1.661885042395117584e-01, 3.217422599251069104e-01, 9.079613856637919200e-01, 3.586168455537503408e-01, 8.208263693312772835e-01, 3.904455758222162287e-01, 2.753094065396905488e-01, 1.499714469351589863e-01, 6.506584032447523258e-01, 2.230288443814048005e-01, 7.918969957489986333e-01, 8.963637866011731070e-01, 2.994257749088162224e-01, 3.717061902927215056e-01, 5.877044176726637335e-03, 5.814132651359389392e-01, 1.045032568674714585e-01, 4.812255260777058008e-01, 3.470271019501469101e-01, 9.230051824734298860e-01, 1.740263664614725425e-01, 3.175753339438894818e-01, 4.424450652194767547e-02, 6.308586330008894572e-02, 6.422868250407778867e-02, 2.762325847252749544e-01, 9.831249655732391401e-01, 8.965555233368045496e-01, 9.050412394372098213e-01, 8.788522770501894232e-02, 3.592668377190298967e-01, 9.339093740798554144e-01, 9.248678245991376334e-01, 1.948005436893013032e-01, 8.565426282865112872e-01, 8.177077655241784537e-01, 9.537558998072063199e-01, 6.234473725246233444e-01, 1.991611818498268127e-01, 3.117967977539090052e-01, 1.603491863327750205e-02, 8.502129135066428534e-01, 9.650821851204369750e-01, 8.350136566718571185e-01, 2.562330587510025515e-01, 3.558746235449518625e-01, 6.399387387393813686e-02, 4.231031793207669645e-01, 5.807609859264982743e-01, 5.413825612987979152e-01, 2.264246127742455539e-01, 2.890696896292522799e-01, 8.530261724736379891e-01, 8.467016194499676907e-01, 8.310412348318215736e-01, 5.636757491315106394e-01, 6.033558337985662351e-02, 7.521276757475113817e-01, 8.883945118075559089e-01, 8.848661262721179144e-01, 8.345692019945331885e-02, 8.239061945316169533e-01, 7.279804727984583446e-01, 1.270518638550104384e-01, 7.511138910286868642e-01, 8.485859482759695871e-02, 2.936841086368280895e-01, 2.108447533276070485e-01, 2.169156220378383459e-01, 1.874815872831749608e-01, 4.890480282627862052e-01, 3.520469408007741996e-01, 1.480957211026254217e-01, 3.635548189004201847e-01, 4.865143140601133065e-01, 4.133322565779899427e-01, 7.475210286033313611e-01, 5.213903307830656253e-01, 7.725748402802560567e-03, 9.872824725686386582e-01, 7.828146038271271978e-01, 3.814060982797016219e-01, 4.667047257893908174e-01, 2.479404728499040866e-01, 4.416121775428781815e-01, 6.904648627381447801e-01, 1.581842839037722603e-01, 1.190924359807143257e-01, 3.696619578672445394e-01, 4.874900655084706824e-01, 9.290031801283392676e-01, 7.068618730173670262e-01, 1.578148059728629593e-01, 6.166400976559009706e-02, 3.760081131477073235e-01, 4.219236448981127374e-01, 9.228354145298502120e-02, 1.396287328499342673e-01, 2.218437113850787457e-01, 8.134170393051541881e-01, 1.217978019764665715e-01, 3.718453753107280879e-01, 3.775544476323121623e-01, 7.053629770940498256e-01, 4.400615942669683922e-01, 7.989106682266501336e-01, 1.527616870747727507e-01, 1.364744772088041236e-01, 3.291751018070100399e-01, 7.151086142132235812e-01, 9.169902523027344543e-01, 5.889300105855497236e-01, 6.639723171081243214e-01, 1.305507662859633489e-01, 6.831004703971489400e-01, 2.017633260319532940e-01, 6.795640533561358998e-01, 7.452170553882671022e-01, 7.653393490718857217e-01, 6.373552422035798637e-01, 1.784756662913383196e-01, 1.162687212172338613e-01, 8.251870965725760509e-01, 5.033111002869197215e-01, 4.028098192938643352e-01, 4.660592636053175614e-02, 2.635672869021738474e-01, 6.801926658171787432e-01, 9.708791205425614246e-01, 2.413957408171953645e-01, 6.722858770364337211e-01, 7.410930737774219790e-02, 7.208775078239994250e-02, 2.613945894136483483e-01, 5.557699624060322696e-01, 3.681312504836203175e-02, 1.179092641041140505e-01, 3.565723491939672418e-01, 4.809275987148490805e-01, 6.575810334660389112e-01, 7.618088784065513153e-01, 3.958438417165723727e-02, 5.471061006938702231e-01, 3.547143865795789885e-01, 5.170058872362434110e-01, 8.020300582547436330e-02, 8.869891376965292062e-01, 2.761882681293967856e-01, 5.756531603846370276e-02, 9.562354222540500048e-01, 9.546130064564940509e-01, 4.400464383420955028e-01, 4.595155798060152619e-01, 4.396202790360803636e-01, 2.255495569951069257e-01, 8.955382402708820244e-01, 2.152609762896985912e-01, 6.735787169430947907e-01, 9.956905686801653665e-01, 9.915876306781169491e-01, 8.466346908642149289e-05, 8.825755889221555961e-01, 3.141889237726738227e-01, 7.247940267975200301e-02, 8.002494715530346081e-01, 5.286547267298087327e-01, 4.229755506121595128e-03, 3.841965920199462148e-01, 5.543483103264343903e-01, 5.565410761080583635e-01, 3.466410301463569987e-01, 7.405578268807131437e-01, 9.430746541815865358e-02, 5.329996574666733267e-01, 8.875824574326834915e-01, 7.550564166158371116e-01, 5.976196873173669211e-01, 4.084114799889195790e-01, 8.067676491277776529e-01, 7.802888030254766516e-01, 2.085318641379031723e-01, 4.111959171611575398e-02, 8.784978616951928387e-01, 7.238322372143943251e-02, 3.626812655794879880e-01, 5.425779946944644383e-01, 9.262830830038271124e-01, 1.525028606916265794e-01, 8.705412570346220402e-01, 5.045929200150862659e-01, 5.350802207975196012e-01, 8.154366943860250627e-01, 3.920439672758591065e-01, 3.992043986544386441e-02, 3.187248678594967743e-01, 7.249568081469822678e-01, 6.577281671687910114e-01, 8.768748688490080045e-01, 3.697224006422563103e-01, 9.658814831846793680e-01, 4.182972600539576757e-01, 4.467866767393029459e-01, 8.873887265827248849e-02, 5.453615276809153922e-01, 9.757992417333074542e-01, 7.142410070905411135e-02, 5.519915105598630634e-01, 1.502306551031193649e-01, 8.213395720799457900e-01, 6.326679810380098079e-01, 8.820386881879145324e-01, 1.459857475719753828e-01, 2.760177028801583665e-01, 5.134220178665505063e-01, 2.405093677594641599e-01, 2.714002922872189028e-01, 2.217333425367667699e-01, 4.418014091277864264e-01, 5.294149453226871804e-01, 8.005226392164266347e-01, 3.368783252397403727e-01, 8.682653780987126257e-01, 5.058108596455257455e-01, 1.862019465544354768e-01, 7.685980137575578741e-01, 4.281124937986724999e-01, 9.288962935925411113e-01, 5.373008122395993569e-01, 1.369906518974171872e-01, 5.800783575758247101e-01, 7.259572401456571011e-01, 3.531235550999063388e-01, 7.384829799337964129e-01, 7.068467881533916364e-01, 3.614336939163247386e-01, 7.228800283041051378e-01, 8.317664354298233143e-01, 6.961102372993220877e-01, 3.584718606645068140e-01, 7.081445033120524757e-01, 5.234906820635687463e-01, 7.519819467055801621e-01, 9.538799292836993571e-01, 3.930933821099795167e-01, 4.520281818204334723e-01, 5.719544374327397707e-01, 4.932461662150562365e-01, 1.362311859425309746e-01, 7.471678557406624677e-01, 9.836716021096914009e-01, 6.375037899790447771e-01, 6.994777220669492479e-01, 5.552662641523158360e-01, 9.446443481685760091e-01, 8.236212611614860402e-01, 8.872421599298799810e-01, 3.175020259439966241e-01, 7.962573106296542136e-01, 2.371212501524107563e-01, 8.075247516035092277e-01, 3.564371814971253327e-01, 1.353099299047191284e-01, 5.489645487630874232e-01, 5.847831601590757211e-01, 7.812420389162546552e-01, 3.099436039893054828e-01, 6.587371891307972627e-01, 3.823751122036087580e-01, 9.101782979027569498e-01, 1.744182478460192809e-01, 5.651901375750354450e-01, 3.419677931978124530e-01, 1.933030654744314902e-01, 1.276172545957209581e-01, 6.903386234137411925e-01, 4.246857999897236113e-01, 3.134986011318428578e-01, 2.160093790675177705e-01, 2.319978612466723489e-01, 4.012070102307402908e-01, 6.700981671576758947e-01, 9.221282905956589282e-01, 3.828422683848072688e-02, 7.754319152838982099e-01, 2.445463892965961950e-01, 7.789766657079331968e-02, 6.607235405194855637e-02, 3.470071384058217023e-01, 4.798231140557328578e-01, 1.780483852328618166e-02, 5.704667581429551104e-01, 9.806884875833252746e-01, 1.356117572118575865e-02, 8.163540299729072913e-01, 2.529748942284602564e-01, 2.271147379373799069e-01, 4.278379603174046752e-01, 6.593548098641466293e-02, 6.004219110670416804e-01, 1.098703252988437601e-01, 4.683772549455344492e-01, 3.810353100556480577e-01, 2.598720945841676566e-01, 7.612793156420271101e-01, 2.338657747792052266e-01, 8.659532519547959994e-01, 1.978560731271912509e-01, 4.458794284050426326e-01, 9.982805767312508127e-01, 7.299026849099247982e-02, 9.669082140803662018e-01, 5.102082345398700758e-01, 4.748044086186747892e-02, 9.022385044373413265e-01, 1.547295717043987995e-01, 9.635914041180928535e-01, 5.953220573513904323e-01, 4.544955597340397113e-01, 4.971110363586007663e-01, 8.294624980365351563e-01, 4.156135761962727049e-01, 6.825988804646632158e-01, 4.113700952748000628e-02, 4.367918181191547400e-01, 4.807204711612695358e-01, 8.617710726761944329e-02, 1.184205844298865801e-01, 1.918810592266625981e-01, 5.144721328684095374e-01, 8.699790532346962646e-02, 9.900622755679073794e-01, 3.019647426767964049e-01, 2.601909142900705185e-01, 1.751068036259573538e-02, 1.231461727806725803e-01, 1.885625803611362949e-01, 4.154100192141153558e-01, 8.430526580711019680e-01, 9.455050151071736630e-01, 4.904100555229347624e-01, 6.904865530504655791e-01, 7.061621340075387998e-01, 2.828959459365544826e-01, 6.507667899499952613e-01, 7.213714175889435198e-02, 7.409492604718723729e-01, 4.258714293943494100e-01, 6.709168197122733490e-01, 6.928521512510206204e-01, 7.621221182705222308e-01, 2.910512093787048227e-01, 5.399890185151108302e-01, 1.368579965128865761e-01, 4.836727933978934857e-01, 2.109908312706691158e-01, 6.812095763537254767e-01, 3.533150368867994939e-01, 4.979084970074366123e-01, 9.824003586538572197e-01, 2.624341880898348189e-01, 3.077665437760316314e-01, 6.250997322230612552e-01, 6.888092161680983150e-01, 5.117578662679556079e-01, 8.904637424432604309e-02, 3.235721198431826262e-01, 4.031537128249026991e-01, 3.425468824555192304e-01, 1.666609047324433268e-01, 2.760399458481915813e-01, 6.460333550083653398e-01, 1.241355119102756643e-01, 4.968633805629583261e-02, 1.311803234554756170e-01, 5.831101239059238717e-01, 5.628225360511837083e-01, 5.336520676357806581e-01, 8.650064847247627142e-01, 2.801846978456127082e-02, 2.206907658553426688e-01, 1.681226271292117769e-01, 2.898648590015783788e-01, 1.305516759332263702e-02, 5.683681275072953731e-01, 1.111672587911138044e-01, 7.056492254860929902e-01, 1.941024151522421359e-01, 6.865633913008556410e-01, 9.555118678549472389e-01, 5.465050923743660638e-01, 3.611984558001834489e-01, 2.897135435073834309e-01, 2.721743456748895729e-01, 6.325033630088543468e-01, 4.181491730832951337e-01, 9.336981768197361031e-01, 6.522108364921169743e-01, 4.353062053394944342e-01, 6.659598006860779629e-01, 4.583622714722570546e-01, 7.128002903218605413e-01, 6.570233312381540403e-02, 2.944078389980998578e-01, 9.828606574674018936e-02, 3.024252002827476082e-01, 7.039032126169418868e-01, 3.829176280692352802e-02, 4.174776669919413319e-01, 4.918913833470419106e-01, 5.172206964251696570e-01, 4.794768626349965035e-01, 5.879687231141218495e-01, 5.678120037378915630e-02, 9.943859924152861351e-01, 3.609837036943616684e-01, 6.764805480163418316e-01, 7.411846342048916680e-01, 4.080322898139012167e-01, 4.134346449506258736e-01, 7.460852753598201659e-01, 6.072838114315367436e-02, 7.289222893451560159e-01, 1.330413075741265216e-01, 8.880691747298666838e-01, 7.558043541182913883e-01, 7.926428210522319384e-01, 5.800286658775155590e-02, 2.287703910276272790e-01, 5.384643512743403360e-01, 7.633351968974624313e-01, 7.260466617552153723e-01, 3.196151272891896156e-01, 9.382603144910681148e-02, 8.610601881640285171e-01, 4.615289374906790809e-01, 1.698944600606203462e-02, 8.373941983373868192e-01, 2.174474214082673107e-01, 5.577921187980783291e-01, 9.647075816643958523e-01, 9.396482112667859932e-01, 1.086598491900216679e-01, 8.189747863494837299e-01, 3.759771228570578105e-01, 5.063003193083068787e-01, 6.585989075250052727e-01, 3.202135746533434357e-01, 5.757136349438042311e-01, 1.553133572511715688e-01, 1.537555704380247912e-01, 1.853221060986545016e-02, 6.613209669208994779e-01, 5.708647361517467100e-01, 3.213841627447294180e-01, 7.375566878508299506e-01, 4.416043270448822278e-01, 6.070231971931741022e-01, 7.672019583664452247e-01, 3.133909890498139950e-01, 6.911131549962979959e-01, 5.586078678451171509e-02, 2.235984301137432240e-01, 4.703113127263179316e-01, 8.681753403119910617e-01, 2.542880702499931700e-01, 7.249424240076884907e-01, 4.798577390120674635e-01, 7.679876645989358597e-01, 2.197341146411673773e-01, 1.855646879942996763e-01, 2.395198452769582431e-01, 6.962813205766632541e-01, 8.811700697871488464e-01, 7.158782127790975780e-01, 6.251505002495481023e-01, 2.029031809122184074e-02, 3.840374915633236741e-01, 7.878090926073903766e-02, 1.448421992556495619e-01, 6.904061571459927382e-01, 8.587932054129343573e-01, 4.914723340794482365e-01, 4.310408374891046002e-01, 4.377752622821414752e-01, 9.990417037571054371e-01, 6.842992572653920913e-01, 5.535118403682477428e-01, 6.706539679788128261e-01, 2.584523397241983433e-01, 7.579939207084579467e-01, 6.964986884649128074e-01, 1.297746293626319269e-01, 3.226430327756144023e-01, 2.137931733314293037e-01, 5.274170821757223626e-01, 9.131156060324574497e-01, 7.249913075246297023e-01, 8.338077338614242606e-01, 1.734887729970404080e-01, 9.327183601918158651e-01, 3.394525641262915311e-02, 5.491767947986758713e-01, 3.999429094922978822e-01, 4.754490699937419240e-01, 5.744198373715436734e-01, 4.455337566360589863e-01, 5.352580943076270525e-01, 2.021071552334468002e-01, 5.531684412103633763e-02, 7.629877716343944627e-01, 9.880727013641386891e-02, 9.030762633776375781e-01, 2.332699208322064066e-01, 6.753260677085811681e-01, 2.742520323575181607e-02, 7.038901880954661072e-01, 2.514262025560913272e-01, 7.466520436140683392e-01, 4.140881162979880292e-01, 4.035206501445494087e-01, 3.693065540787343060e-01, 8.717588267223651266e-02, 9.401633912754915334e-01, 9.921478731313723709e-02, 1.742507143664424329e-01, 8.550014090500006603e-01, 2.115576996400590770e-01, 8.024182122191511057e-01, 6.732661528040055632e-02, 2.940169389440157599e-01, 7.009911719091197480e-01, 8.660341349169046327e-03, 7.224720304899708845e-01, 6.546192013925905551e-01, 1.217723420539507800e-01, 6.699628857610986366e-01, 1.585664633384994970e-01, 5.635312303428496872e-01, 4.775949691491964688e-01, 4.889083204026388740e-01, 5.014954360995518279e-01, 8.957420893640934967e-01, 5.146668336907854469e-02, 4.840621829065939186e-01, 9.088632392327247178e-01, 4.964185198655985398e-01, 8.484809002545888879e-01, 4.888791936984619446e-01, 8.373974668817446565e-01, 4.254656343775368166e-01, 5.722724474571002640e-01, 4.519995076392823163e-01, 9.830860612342416927e-01, 3.357928533187610198e-01, 7.887359591973697182e-01, 7.981924107024733761e-01, 3.244541664628128319e-01, 3.630044538852113534e-01, 9.078482532307904362e-01, 7.683291897303486939e-01, 8.921677800131460057e-01, 9.292462895805349010e-01, 4.761721991482711913e-01, 6.732633366434801481e-01, 5.784914866668349198e-01, 1.099118677419204104e-01, 7.541594890006234619e-01, 7.447827389558847599e-01, 8.699539155892114239e-01, 1.969582198677634066e-01, 2.288577621919538341e-01, 4.366548630523854890e-01, 1.649804410259048670e-01, 9.533456566159925760e-01, 3.088823831165709577e-01, 2.772425132026111738e-01, 3.670448828300165167e-01, 2.183217712759555895e-01, 3.517997895735799907e-01, 7.925263467171161924e-01, 4.365608288585212104e-01, 4.411647588681907872e-01, 1.695219394286714976e-01, 6.184806231531098097e-01, 8.287303142712089121e-01, 3.890266798569876894e-01, 2.419053323629203889e-01, 3.562317733149747423e-01, 6.322791590383926019e-01, 1.180991526504817091e-01, 2.099628353400919689e-01, 3.130998121747030072e-01, 8.088050785604271598e-01, 9.403944474895976902e-02, 8.665687691485474131e-01, 7.728047446112723540e-01, 6.532957666727144952e-01, 6.167473638847874584e-01, 4.719628650972214068e-01, 9.574221799361110063e-02, 4.519120698360408750e-01, 3.298040538337052713e-02, 3.675264450682727002e-01, 2.546679817437907389e-01, 4.167565475917095474e-01, 6.785700141018347065e-01, 7.418153993372249566e-01, 9.511517302296259579e-01, 3.196724322221579651e-01, 8.921250452791663899e-02, 1.341600032439927703e-01, 4.318291018396795689e-02, 1.366418722708497013e-01, 1.390091423287313221e-01, 1.653892397025596150e-01, 1.344493164636844096e-01, 5.195799321057618103e-01, 4.772815258227572355e-01, 1.011939322650993872e-01, 8.769491744845402392e-01, 2.223349350862153795e-01, 3.017203539879514951e-01, 3.094937991922284692e-01, 8.857431601864286519e-03, 7.884907556521927319e-01, 5.079536349795867878e-01, 5.575154411795377740e-01, 1.659727077312088683e-01, 3.943991710184812649e-01, 2.085404449010218597e-01, 7.352998761280071793e-02, 3.661097981165505055e-02, 8.953329750110371466e-01, 1.991771495186690777e-01, 5.730120269090773766e-01, 1.561878966299926619e-01, 1.404095739423601441e-01, 9.527457774366000498e-01, 9.498662383397281361e-02, 4.849546787452674312e-01, 9.436513904405225972e-01, 2.356304675743713106e-01, 9.288929647626911201e-01, 3.540169023053879038e-01, 2.914585101543339385e-01, 7.933315336909873006e-01, 6.266064904589834228e-01, 9.403470329110820425e-02, 9.487276830239347314e-01, 6.756212267224489532e-01, 6.608723169695403243e-02, 9.377019844267625581e-01, 8.666466111647155302e-01, 6.223034569729194443e-01, 1.245247883906695774e-01, 8.791265316266263508e-01, 5.819984400442534955e-01, 2.402127228585733132e-01, 8.051228133120138519e-01, 5.804807192298175877e-01, 6.407212612712276378e-01, 4.174289610323727584e-01, 7.183094799601075220e-01, 7.350063719779575955e-01, 4.624897432382802376e-01, 1.340172251251996356e-02, 6.899889509668625243e-01, 2.955270040431938194e-01, 5.774832450965655672e-01, 3.191822130124682411e-01, 2.073235151399394904e-01, 7.652974363975555416e-01, 5.904277697810430547e-01, 7.238699594556400330e-01, 7.840532832897578741e-01, 7.457958925020718999e-01, 8.826342100351608488e-01, 2.514393235682180205e-01, 7.966434591897514350e-01, 9.744278905350898246e-01, 7.084647723312539891e-02, 6.901824228418927953e-01, 5.354899414653732093e-01, 2.230342635338650459e-01, 3.788183577326884044e-01, 3.639817553119812921e-01, 2.890972531222985031e-01, 9.236488093338659500e-01, 7.037474250857763680e-01, 6.320240110187702598e-01, 2.381615286839865731e-01, 3.719224269555648776e-01, 2.144631320759238791e-01, 8.578246846858804675e-01, 6.284770398292895965e-01, 4.195773532110544379e-01, 7.022651923371733274e-01, 2.855433828485196002e-01, 7.813315052292446605e-02, 7.425578792876122436e-02, 3.728458626381481733e-01, 2.471242137341811071e-02, 4.956058258382433634e-01, 7.754973327689226315e-01, 8.789763644681281018e-01, 7.575995252056576534e-01, 1.251288354586656965e-02, 5.579792323334993309e-01, 5.072116073961377980e-01, 8.964933660105212088e-01, 2.719350753710244040e-01, 2.233080821314166464e-01, 6.431066411354825485e-01, 6.513718883120243885e-02, 9.801268828694738033e-01, 7.383313159789750557e-02, 7.824426575538452611e-02, 8.002301013826472742e-01, 6.575816400185354738e-01, 5.241049727735135333e-01, 7.869529682161044426e-02, 1.592722531370948102e-01, 6.537748894031411573e-02, 6.811317825487944733e-01, 5.274198984066276186e-01, 4.822626162450997095e-02, 1.569416054584574782e-01, 8.479132103088948824e-01, 6.638954663838091408e-01, 7.534369708798103193e-01, 5.231033985275512777e-02, 4.091127280846046377e-02, 1.497989748822995404e-01, 5.763091723724460547e-01, 2.039028750193232487e-01, 4.662266364827223342e-01, 2.118170135173172985e-01, 5.113242078014411662e-01, 5.128194925244463631e-01, 5.575335149979414595e-01, 2.566131847470741190e-01, 6.898006716666497118e-01, 6.723773385642471678e-03, 6.662803609470295818e-01, 6.463128285124143391e-01, 2.364243054950368739e-01, 2.072574544369242683e-02, 6.942565187415633554e-01, 6.358393439692383575e-01, 1.474018247576062424e-01, 4.241877626892460729e-01, 9.683952376129774386e-02, 5.177935421264187044e-01, 6.151285572254123757e-01, 9.277022497297010561e-01, 9.830650076800504511e-01, 6.086446011139688972e-01, 6.375580163373647524e-01, 6.162402123207357807e-01, 5.104544867998687119e-01, 2.162081097195613089e-01, 9.588586886402159504e-01, 8.121860097688322622e-01, 2.021729765782303567e-01, 9.137760903223213216e-01, 4.338118827423446122e-01, 5.066253617223002159e-01, 4.237329044110023091e-01, 1.742509041881213916e-01, 1.073559790514662104e-01, 8.641645373941804209e-01, 6.279138201602094682e-01, 3.679069327656752098e-01, 6.586280033534621658e-01, 3.132307844019345255e-01, 3.353243564228998164e-01, 4.536701893208363590e-01, 1.939178846108115806e-01, 1.997085874214029055e-01, 5.340808109015914296e-01, 6.472313957738186352e-02, 9.736864848605747413e-02, 3.699416545895678476e-01, 8.183272608104464885e-01, 6.758504601252115496e-01, 7.661007514696017706e-01, 6.936277653911145924e-01, 2.358289667994362127e-01, 6.902531620997600648e-01, 3.737974322391915405e-01, 5.343792669990388156e-01, 8.868561351152918215e-01, 9.248090246420169747e-01, 9.478935738648217590e-01, 9.840598040156511850e-01, 5.056313928929319079e-01, 7.706846381490949360e-01, 3.775491262262523628e-01, 3.457310222042792730e-02, 6.458218937405478810e-01, 8.630389862261179656e-01, 4.221224316170245627e-01, 9.474205017591189604e-01, 9.090812538151382682e-01, 7.859308605325927566e-01, 3.056018658412064659e-01, 4.926407735658970555e-02, 7.770927320266463045e-01, 1.154392477790590066e-01, 5.910922319850467899e-01, 1.168811234811063526e-01, 1.045020112631367126e-01, 3.686442649181042586e-01, 1.932996516267688480e-01, 7.113287244367856310e-01, 9.240206697273760650e-01, 7.652286517751851758e-01, 3.113522188103802768e-01, 4.151443301705369238e-01, 9.208035910938044966e-01, 3.411051939348053175e-01, 1.611320282071738996e-01, 6.755587945644423442e-01, 9.067109250731081316e-01, 4.681114307615022452e-01, 7.772938437603573725e-01, 5.297880153488462862e-02, 6.077557964770639032e-01, 5.842866637687681441e-01, 7.706850883255476070e-01, 9.466084472779887626e-01, 1.084924811982439924e-01, 1.276607712047131415e-01, 9.671704985741708116e-01, 3.892719391578101096e-01, 7.168077392047260687e-01, 4.716450672706469782e-01, 7.586790580342304136e-01, 6.376530033509253403e-01, 8.708313251646996322e-01, 9.015733652979216473e-01, 4.639819633756902539e-01, 4.318620014000689178e-01, 7.207588335338488417e-02, 6.946164663428173736e-01, 4.112765299101247551e-01, 3.057035466291483858e-02, 2.189707982774146133e-01, 8.958509996055152858e-01, 1.270609907230044189e-02, 8.423414462212923670e-01, 5.666174283156489855e-01, 9.908316234052946259e-01, 3.956098351873759134e-01, 6.026012864853032003e-01, 9.349189063499976360e-01, 1.989087419509457111e-01, 6.379634472501780618e-01, 1.701134666934997208e-01, 3.029059385499547896e-01, 1.300048994564487670e-03, 3.443163721297366753e-02, 1.633570164657119905e-01, 7.374226020238833224e-01, 4.256224084705548805e-01, 3.707580731823878484e-02, 4.557802597282827883e-01, 7.160611726325383231e-01, 1.357558978272768724e-01, 3.068853740283249976e-01, 5.422261278203401869e-01, 3.383020437423192028e-01, 2.865062264148278137e-01, 1.824205799730797550e-01, 5.730250658415893955e-03, 7.901682366521084466e-01, 4.853740672349416974e-01, 3.401876949625553537e-01, 3.774527354345776908e-01, 2.414613131394991730e-01, 1.265948919461780953e-01, 5.142697609881199949e-02, 7.056707528133517870e-01, 4.225530197703539215e-01, 3.765132588425879612e-01, 2.258018436146455310e-01, 5.321861077150519259e-01, 9.464834566773540070e-01, 8.015419764444112749e-01, 7.581836023849048978e-01, 9.849658521963956526e-01, 6.049772283479541990e-01, 5.610888664725791619e-01, 3.534040805497337678e-01, 9.015983723774962932e-01, 1.565432874009684838e-01, 6.883165913752827825e-01, 8.322995237366186405e-01, 4.289016245803713434e-01, 9.790256824495954247e-01, 9.712751325110522416e-01, 2.257925083637820907e-01, 8.830700776075824932e-01, 1.861362788359351705e-01, 8.279780986621674277e-01, 9.971193361980141834e-01, 4.362854648653499701e-01, 6.152476738075174367e-01, 9.715594162223046837e-01, 1.291469617265960657e-01, 8.954002023570605262e-01, 7.179408134366443983e-01, 7.876916356073135339e-02, 2.325508913790687859e-01, 8.658352294724604159e-02, 4.370267616129064336e-01, 1.817671366587203241e-01, 9.837935991133394120e-01, 9.872204626619871526e-01, 8.915318935240545972e-01, 2.116036465889232776e-01, 7.273752507956955382e-01, 7.732093542485775073e-01, 7.503350630034999469e-01, 7.495765103167032484e-01, 6.436620470155871576e-01, 4.949494303452460775e-01, 9.582430183905397136e-01, 7.948828390514083297e-01, 7.835174843656143029e-01, 9.027067971480488007e-01, 3.791721844463835089e-01, 7.020174898518547479e-01, 2.526097751819958437e-01, 4.924512517738348083e-01, 7.049474913327590242e-01, 1.893107333410494475e-01, 5.516453043182862892e-01, 2.221563356531663924e-02, 5.087539982015912843e-01, 2.751861379482585246e-01, 7.575707021068574243e-02, 2.211410459012866925e-01, 2.381123778468372532e-01, 3.694859381698817891e-01, 7.509008627694333526e-01, 9.593829997296119405e-01, 9.068732898083340377e-01, 5.853508913141884928e-01, 1.083111508942743717e-01, 1.877630691722616540e-01, 7.119628610685672099e-01, 7.612898632343381156e-01, 9.483933335532220843e-01, 9.855656402650926351e-01, 2.135968563506263421e-02, 9.680702860950616273e-01, 4.719521429847107763e-01, 3.678094388118965941e-02, 7.568348481272274553e-01, 4.275031083514279073e-01, 5.876852342896321524e-01, 7.946782947037842049e-02, 6.641087742256845949e-01, 1.645660139817167744e-01, 2.095538488766243435e-01, 5.278582368384029389e-01, 4.046264451295257802e-01, 7.690187061739720553e-01, 5.290349140946423168e-01, 3.475482494653664434e-01, 3.992695761568381685e-01, 4.370001514040393054e-01, 8.308812037255219884e-01, 7.199820560396634761e-01, 5.813648169132245025e-01, 1.208586609637996023e-01, 8.039502532552537106e-01, 3.510713847922834474e-01, 1.934592897175285708e-01, 3.388937962291987405e-01, 1.506790607935752646e-01, 2.241025751411727385e-01, 1.596933746287289013e-01, 2.509246046098717042e-01, 4.408801249066360839e-01, 3.702067843680507675e-01, 3.808048501688910403e-01, 5.229867582369309709e-01, 7.811226362405185863e-01, 8.120701927072534465e-01, 9.981186953772070991e-01, 4.814395077257771494e-01, 8.360936095584222683e-01, 7.322583764147292396e-01, 6.202342835909101515e-01, 4.834400459118091686e-01, 9.477005594981505743e-01, 5.585431123181893165e-01, 2.222860544641810931e-01, 8.379672538260152237e-01, 6.818083953441231859e-01, 9.337073158132398465e-01, 3.944343973086332777e-01, 3.127964014903175105e-01, 3.044964736090151614e-01, 1.217699540768606564e-01, 4.649414690105380110e-01, 6.864963452344580164e-01, 1.976335919884964210e-01, 8.098915218364527435e-01, 7.751324756968999141e-01, 7.933371004995204423e-01, 9.274791202887793240e-01, 2.503797764965123851e-01, 4.742754307901945743e-01, 9.249157779042073077e-03, 6.323342373433939179e-02, 5.642120007875738308e-01, 8.810303162152920420e-01, 7.899633408347270791e-01, 5.702373810913262675e-01, 6.630113182602801469e-01, 4.590873669051393630e-02, 2.569197870954156304e-01, 6.880781091801689391e-03, 2.169616015575893120e-01, 2.909533358990803453e-01, 2.314712877104113942e-01, 6.402544409657990876e-01, 4.287030219371494866e-01, 6.413952230514139430e-01, 3.667407372359501178e-02, 8.803783998891923090e-01, 5.567624575206256976e-01, 2.460049621661411154e-02, 4.323490152330140557e-01, 9.842323085125295190e-01, 6.895188832787716438e-01, 4.295156101227605716e-01, 1.676108218491755564e-01, 6.613682889384611130e-01, 4.837987992871011778e-01, 7.508989074291632093e-01, 8.576937623390765708e-01, 1.123825466755681152e-01, 4.926106457227309443e-01, 3.893930118761703696e-01, 6.486296269075529641e-02, 2.214911032511114042e-01, 2.481087726934948223e-02, 9.495572061148086496e-01, 5.080077469297203385e-02, 2.114072197572683387e-01, 2.173981012766598025e-02, 7.376451386351222383e-02, 6.692761970614446998e-01, 8.985233254396633729e-02, 5.485965994247025135e-01, 6.633926133610185127e-01, 7.189737934004904185e-02, 1.823041851602365537e-01, 9.402126655292372126e-01, 1.019376265983646113e-01, 4.630130211104834803e-01, 1.985264248044588953e-01, 1.597347766030848548e-01, 8.100205272805779400e-01, 8.922007444814988864e-01, 2.132907916205840915e-01, 9.840392954867265285e-01, 3.748797969412143716e-01, 4.870670758988197013e-01, 5.038165085429646695e-01, 9.772228444280935955e-01, 8.254694419056584076e-01, 9.526518479896237679e-01, 9.656276223964351813e-01, 7.799932011143085875e-01, 7.189195780243036182e-01, 3.704507292706886168e-01, 6.247876796483126105e-01, 4.255153436091380081e-01, 9.834896019171491810e-01, 4.459627835832979947e-01, 8.572964485060335926e-01, 4.339892523819940395e-01, 4.773449084255940167e-01, 8.981644434328919235e-01, 2.100083429318780059e-01, 4.340746500086742343e-01, 9.553212511552729991e-01, 8.725856865787874339e-01, 5.981063420755345916e-01, 6.376950981323430134e-02, 4.759329764192197776e-01, 4.026285816596049116e-01, 6.534152878279297916e-01, 5.123845248052125712e-01, 3.046875281283446119e-02, 7.579990411993978716e-01, 6.124296337484477215e-01, 3.151065406277444025e-01, 6.491784913750940911e-01, 3.672566194003316908e-02, 2.757416529510305359e-01, 3.857814427267975965e-01, 1.377744686861377688e-01, 1.670729887886438225e-01, 7.822998013559844255e-01, 9.954308218911815942e-01, 8.553392793103465896e-01, 7.057970788897505177e-01, 4.340075465405170974e-01, 9.394473586575556867e-01, 3.166707978186065753e-01, 6.233002057015277764e-01, 2.161511493131439976e-01, 1.195159876035726820e-01, 3.083490118360476262e-01, 8.845196666753118997e-02, 7.184340028049214233e-01, 6.795678553865285298e-01, 7.481864572711304229e-01, 1.624814050246960184e-01, 3.564064159801298010e-02, 6.366700546199089983e-01, 7.761286067407701106e-01, 7.150946565851659109e-01, 9.174033650461459466e-01, 5.351951423310125078e-01, 5.961324087069332922e-01, 1.219074844255055995e-01, 4.258225881916549160e-01, 3.328683575785534865e-01, 7.799243554017717961e-02, 1.922332550093068249e-01, 3.614254397300836197e-01, 8.532054041770910091e-01, 4.506839062108770055e-01, 7.034195337190596309e-01, 5.012301326481915370e-02, 7.868938715819512320e-01, 2.236180546084913512e-01, 3.883187322373359285e-01, 8.672194149710497069e-01, 7.545962184531432859e-01, 5.214339221233393884e-02, 7.614523337981840001e-01, 3.920726374126379254e-01, 6.039774676249687335e-01, 9.362911291134778935e-01, 5.889578383126095051e-01, 6.596062072158470624e-01, 5.028216800000194775e-01, 8.365894236639613846e-01, 3.884767274430583200e-02, 8.813210932519152108e-01, 8.461782167049504144e-01, 8.675773428126338782e-01, 1.963735030428727935e-01, 7.367038674458282754e-01, 4.051967920711617155e-01, 8.179423865208572675e-01, 1.496291519025735595e-01, 8.559037163303476192e-02, 3.412218134410001658e-01, 7.895607877359869242e-01, 1.832485221488968363e-01, 6.168909590148297095e-01, 8.844279850712845059e-01, 9.833324609056284249e-01, 8.859665634772792009e-01, 4.966146627652370249e-01, 8.559729541331901892e-01, 8.390061579233433486e-02, 9.681620574636646825e-01, 4.851539153443112373e-01, 6.290888795635582453e-02, 3.099945197500572971e-02, 5.806818947087529770e-01, 2.657775375256250516e-01, 9.267187651938644244e-01, 4.300155136339114947e-01, 6.607886414227146510e-01, 3.478233324015453931e-01, 9.740440786832846864e-01, 8.914329226079644730e-01, 1.059486386817981990e-01, 2.125602602913863048e-01, 9.085639687118863828e-01, 7.360712407022674819e-01, 1.180996058571415763e-01, 7.857608841396803712e-01, 8.488597446160340843e-01, 6.711887406703503922e-01, 4.906697016228783181e-01, 5.935405797211334988e-01, 1.953676688683120832e-01, 2.910920487561221015e-01, 3.568005928567781759e-01, 4.456328747409377677e-01, 7.666173268125225926e-01, 9.321450583681660795e-01, 4.289770983473754629e-01, 4.555160883726837584e-01, 6.707499847403705084e-01, 2.282041621706331069e-01, 8.587408779937300007e-01, 7.804434337032792879e-01, 7.210925193330589567e-01, 5.040710484323663865e-01, 5.473873874720109889e-01, 6.931952347375619494e-01, 5.063837085861155884e-01, 6.033587526977809423e-01, 1.495450777016874844e-01, 4.439741442498873480e-01, 7.131139340252775627e-01, 4.143800576381477807e-01, 5.191421763212455964e-01, 8.930883939513127867e-01, 9.244690326221421950e-01, 3.266786064884428797e-01, 7.400931074385654895e-01, 6.841352136769266457e-01, 2.983562937909331469e-01, 8.852827991216014603e-01, 2.244125739188209401e-01, 2.193499984388124976e-02, 1.698640005401064190e-01, 6.661039578894534241e-02, 3.886117742969599775e-02, 7.985158903828529775e-01, 9.722815026980946573e-01, 5.906529854365887289e-01, 1.182688406469623449e-01, 6.945307133892529572e-02, 4.847259706226296760e-01, 7.948574668541019683e-01, 5.059155263199933694e-01, 8.767887249305093000e-01, 7.884514401387641147e-01, 6.162151772278987583e-01, 2.444185733445168873e-01, 9.831245235620531542e-01, 5.544784247997133209e-01, 3.850025656780688976e-01, 9.701212040378324186e-01, 7.088358809620688428e-01, 4.716150676403128017e-01, 2.623571837884262070e-01, 8.232465751092072903e-01, 6.528608872834079646e-01, 5.920602305796500708e-01, 4.509805775586366861e-01, 9.490763054453315029e-01, 6.344053740551339748e-01, 7.219310634809624760e-01, 8.167392907937675028e-01, 1.956610118285125044e-01, 5.011549278291813625e-01, 2.083713906275109773e-01, 2.075599833988931442e-01, 8.781218825987511245e-01, 4.755470766457131071e-01, 8.612995218499835959e-01, 3.879139759145107669e-01, 5.102202665470894072e-01, 6.784139834251425860e-01, 7.615166552219856388e-01, 4.223596807157460886e-01, 1.617901943823056854e-01, 1.712714805505491655e-01, 7.303219713837770799e-01, 7.145359419676728940e-01, 3.926324977790145443e-01, 9.309062248059497557e-01, 2.458728630170233520e-01, 8.207830220563904211e-01, 4.144281436112798866e-01, 3.941893028992417558e-01, 5.644758740318295276e-01, 6.943687276068901681e-01, 1.196638794505412995e-01, 4.181862455269628742e-01, 6.281124897432587284e-01, 5.304338823851332263e-01, 1.858400393256866290e-01, 3.937063190561724269e-01, 2.944476677503675144e-01, 2.553685891428258969e-01, 6.253557728960953410e-01, 9.463332042882425243e-01, 5.920200921464536803e-01, 5.316335701569372407e-01, 3.114255998034787254e-01, 2.641929987554595405e-01, 9.772444117089061910e-01, 3.758094385211523392e-01, 5.422887130148772439e-01, 1.673645322505512290e-01, 7.728178611850601287e-01, 1.413567837490755930e-01, 7.092061219702517905e-01, 5.316676901527170873e-01, 6.573795758550630142e-01, 1.643194919350059735e-01, 5.829543490836708308e-01, 8.163824314608120192e-01, 3.213126104660474769e-01, 9.142289407724407679e-01, 9.488774771603540881e-01, 4.598056195438313676e-01, 3.304668989845465088e-01, 3.987153579757767852e-01, 7.665874063243467429e-01, 5.715196661028774106e-01, 3.347723289519494716e-01, 2.151169967342502765e-01, 6.807955639161197281e-01, 1.435432917276692755e-01, 5.856004168697145351e-01, 7.925567061217327902e-01, 8.564999722047350605e-01, 6.351939028494764106e-01, 6.569706420594570440e-02, 6.746140451992347353e-01, 6.369802644138218561e-02, 5.587795536705217891e-01, 6.945743110473902027e-01, 4.938758539747213627e-02, 5.742305773007486680e-01, 9.164439440899889711e-01, 5.947106922471045998e-01, 2.592519819209553877e-01, 9.493005316359126589e-01, 8.427414454357942120e-01, 5.243466719087360728e-01, 1.083412597896085267e-01, 6.657031747557272672e-01, 6.715104072317905626e-01, 3.423941532636763374e-01, 3.590005686858025458e-01, 2.509274549851174818e-01, 8.163290692166981499e-02, 5.501124003585108335e-01, 2.713721651767524445e-01, 5.634425886694406360e-01, 7.909738524298920437e-01, 6.515310511556374751e-01, 4.873424230341720786e-01, 7.024767103820966918e-01, 9.582489266977539666e-01, 7.724532004833674081e-01, 4.985518538666101618e-01, 9.531727473629552083e-01, 3.022626943571327107e-02, 7.802496663935392096e-01, 7.902162281571053493e-01, 5.241350705813220268e-01, 1.761518190059747080e-01, 4.015024718058164965e-01, 8.001975170790903702e-01, 4.569353772450061024e-01, 7.921485467341562448e-01, 3.957624275682467552e-01, 3.636695415129062026e-01, 9.326899422419575592e-01, 6.735920703329848491e-01, 6.364806263773994388e-01, 3.616477711217433999e-01, 9.997141573895282907e-01, 7.303629103635500552e-01, 7.179751404530938519e-01, 4.532672539338452045e-01, 7.313228699396080723e-02, 6.463468273551143950e-01, 8.016811411039223567e-02, 4.398630182558794233e-01, 8.303020138596490796e-01, 6.822650331064866736e-01, 4.600230723838169000e-01, 6.250359407924699351e-01, 1.461948135476948962e-01, 6.530190334620608050e-01, 2.987839817300966816e-01, 8.524818575810466648e-02, 3.309779734394597273e-01, 3.600517032871429768e-01, 2.341897060362604643e-01, 5.897986709685845153e-01, 8.536344687109279628e-01, 5.522317231386809633e-01, 1.274589861634352617e-01, 8.804289373120014472e-01, 2.523390690102908507e-01, 6.588094175681380449e-01, 4.857680946050875470e-02, 6.145969248667387808e-01, 2.659195607470577483e-01, 7.723178217729297079e-02, 4.698398317047405848e-01, 3.043249761104515061e-01, 4.678355010153000260e-01, 3.252700757112910734e-01, 5.092807774116986375e-01, 1.342689489113788048e-01, 2.151874625171583122e-01, 9.781779827343863865e-01, 6.037505447619652132e-01, 4.618355667477817561e-01, 6.788582000721407050e-01, 1.936600382230350692e-01, 6.664992881163528393e-01, 4.355836901992873322e-01, 8.514726482994385837e-01, 4.046270650582069472e-01, 3.140286960989268628e-01, 3.702590722407396451e-02, 1.144794303921723849e-01, 9.087506265321843024e-01, 2.137748683403158656e-01, 7.883143010063317080e-01, 1.045881665153855500e-01, 2.485911685950825400e-01, 2.829700358188609322e-01, 7.260887348644579076e-01, 1.523318084351770740e-01, 6.792328826821362187e-01, 9.215490471058013222e-01, 5.153436483852836814e-01, 7.890376614193169713e-01, 4.470785127891465649e-01, 5.170632675816128065e-01, 5.233111921575365200e-01, 5.080250867841230589e-01, 2.598761921949002129e-01, 8.685815910382700400e-01, 1.007054576856190355e-02, 5.911072035828812687e-01, 7.634031252535470324e-01, 4.941300722365090659e-01, 7.384288003104481080e-01, 6.730931940959710147e-01, 5.564484601013685028e-01, 1.175843672025317366e-01, 6.958492125737266720e-01, 6.026833768392532154e-01, 2.063574142078972440e-01, 7.874425203920222271e-01, 5.454358479453464970e-01, 6.784633647885224272e-01, 2.458579144027905339e-01, 5.713391101637425029e-01, 8.912888328472077237e-01, 4.946037436679689425e-01, 2.145232289742888820e-01, 2.401013340958076947e-01, 1.567590361665695819e-01, 4.977651352264351736e-01, 6.139657267847655753e-01, 2.235433420991797260e-01, 5.857291934628309216e-01, 8.759655223493076903e-01, 1.886118429682121511e-01, 1.021499359042303129e-01, 5.000954889942221815e-01, 7.073039499622304493e-01, 4.262281740461252300e-01, 8.749397419490030359e-01, 8.442761275562508105e-01, 5.614958239930613049e-01, 2.517178901456890161e-01, 6.541466721329458611e-01, 9.869518115135269554e-01, 7.703383167971872281e-01, 1.380101131747288323e-01, 9.311201456627636874e-01, 3.749490743261486014e-01, 5.606374146716354145e-01, 8.699345404756662070e-01, 2.479266481626472285e-01, 8.176253872636178865e-01, 1.162755025687054744e-01, 1.645525727029167606e-01, 1.169475606087880537e-01, 7.126157432426393212e-01, 5.873096047601090719e-01, 1.523429050535513585e-01, 8.992169986549176652e-01, 3.224036911153381757e-01, 9.183623758207930532e-01, 4.794965066829028344e-01, 7.504184614680736720e-01, 4.316886931932898408e-01, 1.092443542456227046e-01, 4.951573248177711384e-01, 2.641180830201758090e-01, 8.768017436728689495e-02, 3.381728467053014553e-01, 7.331532171238148710e-01, 2.154823961590644765e-01, 8.652029398501314139e-01, 5.383515416411136512e-01, 1.117858362488769741e-01, 5.282127453048522936e-01, 8.149072835698052408e-01, 9.862204754739372081e-01, 3.564245694018067234e-01, 6.731742804870188834e-01, 2.609866614476235580e-01, 2.628028130777604332e-01, 8.263060423028018020e-02, 1.360397747807194913e-01, 1.190807655591985120e-01, 3.349803013125924878e-01, 8.354138899932935791e-01, 4.600726262976467806e-01, 1.252272443016337056e-01, 3.224423365515888817e-01, 8.073176940410101698e-01, 2.775146938961544074e-01, 6.126571662619914038e-01, 5.640356924394078764e-01, 6.692011675632286716e-01, 5.569687269505122496e-01, 6.759382154317870872e-02, 1.596894692572462804e-01, 9.469143612689345790e-01, 6.451367774696090684e-01, 6.765622604687644426e-01, 7.835679608440135890e-01, 6.353365669759820644e-01, 9.171648304085057157e-01, 6.137470070910078235e-02, 3.382473478595504068e-01, 7.478004907869881812e-01, 9.123071450968260887e-01, 6.456960713548502984e-01, 5.786024444924130483e-01, 3.981003427939460715e-01, 7.609870483360771098e-01, 5.532323157925934654e-01, 9.253189917540697307e-01, 5.449624198763520777e-01, 6.861340075270825345e-01, 9.594999263932589839e-01, 3.829015372278075646e-01, 7.237375216830408409e-01, 8.783354261542192232e-01, 3.028174199944768663e-01, 4.007117834604815299e-01, 9.002313917130861931e-01, 5.081345669686540001e-01, 3.728744186175990127e-01, 6.578007483095857921e-01, 1.977879376824466240e-01, 2.271339127332086885e-02, 7.757157704375969853e-01, 6.207063716889779093e-01, 7.414212162098116066e-01, 8.643976059437643578e-01, 4.706616379813834405e-01, 4.397429785940829006e-01, 9.815839276510126554e-01, 7.497040975961979381e-01, 3.889877913732600612e-01, 5.351374173075659213e-01, 1.549068108567212831e-01, 1.742352161826783707e-01, 9.240798444422693159e-01, 5.789590086021582094e-01, 9.392453209983459006e-01, 8.920987756240684741e-01, 9.084940191818775546e-01, 6.106260831094907360e-01, 3.795669923485405217e-01, 9.123491197855237989e-01, 9.859800936498910318e-01, 9.280369063895660409e-01, 2.982296898055664808e-02, 1.950200659304651141e-01, 3.195026835228341189e-01, 5.558019002588695523e-01, 5.097604980698529076e-01, 3.100049165479795144e-01, 3.239910337061840395e-01, 8.656812057179652520e-01, 5.163636942497003973e-02, 3.754304105168599359e-01, 3.535622743692067860e-01, 5.829657862998224305e-01, 6.644334147759575204e-01, 9.911878314983402216e-01, 4.315720064402921441e-01, 9.347562419637152065e-01, 5.148641578980317490e-01, 3.335265860264195470e-01, 3.104253201350417046e-01, 9.925622384386350028e-01, 4.708838868491251328e-01, 3.146406717112950058e-01, 3.873490570796709331e-01, 6.199183243485862915e-01, 3.959626640812389242e-01, 2.197563075468559612e-01, 2.667358947861283580e-01, 6.033792603482446282e-01, 1.586167170323867504e-01, 6.316884551338162179e-01, 1.563518138163033921e-01, 6.160630623434655284e-01, 4.590821800256850715e-01, 1.433057021564257960e-01, 8.672148127671597262e-01, 1.731927963750018173e-01, 3.449817408588368162e-01, 1.598091492569368374e-02, 4.804290959031749519e-01, 2.210460627292678559e-01, 8.160899951889775961e-02, 4.771764269554175097e-01, 9.225115914375326964e-01, 2.356820689408088143e-01, 7.337874745647471331e-02, 3.760704844019487070e-02, 4.117056074265852961e-01, 7.495515689705777307e-01, 7.247740058029084054e-01, 9.010209579465175422e-02, 5.386973027523878077e-01, 6.613744384926891762e-01, 3.731296338365842069e-01, 6.693669186386872472e-01, 4.688698682725326305e-01, 1.840776078571077223e-01, 1.085617997356595199e-01, 1.837604715173929981e-01, 4.822884132001034607e-01, 9.315062489870890028e-02, 1.153376235152166890e-01, 9.580208202151333508e-01, 9.988373055322925520e-01, 3.783905710168765368e-02, 7.548935575788463526e-01, 4.743828375972811151e-01, 5.624753063911214213e-01, 7.014473277928663653e-02, 2.848327831272807198e-01, 9.404066634139485181e-02, 4.030102555749532911e-01, 1.928609962151131285e-01, 2.721847059921738698e-01, 5.670409955720007167e-01, 1.481672542609144272e-01, 8.701311571313178339e-01, 7.064868975354162695e-01, 9.054796281903976229e-01, 2.357181815871013109e-01, 6.407724383024747394e-02, 8.118312404378337233e-01, 9.083046297646808487e-01, 8.484546293488363089e-01, 6.556953291107718851e-01, 3.039074631938871729e-01, 7.241624610373212922e-01, 1.910762602249252429e-01, 5.539243212825002427e-01, 7.067499605490161763e-01, 7.311491620365728750e-02, 6.282913313015787982e-02, 3.737475054601962499e-01, 8.463325831197434646e-01, 9.568907947881506448e-01, 4.928364149428123842e-01, 5.913902941232642707e-01, 7.895389532027257129e-01, 7.579235833343594964e-01, 3.071086724116522254e-02, 2.616575889548975464e-01, 9.931457871167254092e-01, 4.274241359797472106e-01, 3.253300040903986945e-01, 8.880191505185056622e-01, 1.421685562180454165e-01, 9.098359061634690992e-01, 2.916042606483516542e-01, 9.300830444981184053e-01, 7.301726031891973001e-01, 5.975106146264088647e-01, 8.700325250697862334e-01, 5.927217048887130080e-01, 5.502816021935525992e-01, 9.245982484521098055e-01, 7.746796394002412878e-02, 6.479452946839551197e-01, 3.483024920135077696e-01, 5.706368433236581605e-01, 1.743392472548274119e-01, 2.554945323419270942e-01, 5.223456604466152342e-01, 5.941900175380439020e-01, 3.566128534486732171e-01, 3.124250795684635484e-01, 7.307234367600252689e-01, 5.758572561424463165e-01, 8.777341020950786277e-01, 2.267402293885839581e-01, 7.299296053169512799e-01, 7.724417712864165564e-01, 1.132450917769417809e-01, 4.492381577351317601e-01, 1.431338445436983742e-01, 8.135576468912926185e-01, 3.493334534480626030e-01, 3.795164984856387314e-01, 4.961584230731145295e-01, 3.782236271624601909e-02, 7.313224204023573982e-01, 6.036922877075127092e-01, 4.898331935961519057e-01, 3.889977285965622866e-01, 1.460936346758800628e-03, 5.167651846087887441e-02, 9.878694544943268374e-01, 9.758836577105272081e-01, 2.818459357641932561e-01, 5.007250714813621384e-01, 8.431258093561694311e-01, 6.669343123399298356e-01, 5.946667063502256712e-01, 1.133565030290906578e-01, 6.209450387861742415e-01, 3.547076292495151550e-01, 1.483008827260350916e-02, 2.519262712276836291e-01, 8.474128558621414342e-01, 4.783439532409252543e-02, 1.332858605776434113e-01, 1.780103471003482152e-01, 8.109401778515382686e-01, 8.494554047156285259e-01, 4.177273298279751135e-01, 4.192617542564039956e-01, 8.456159442889955857e-02, 4.123861894802012540e-02, 3.812622607324960833e-01, 7.714437835400638210e-01, 7.617334967538005319e-01, 1.044174590046064999e-01, 6.456384157216699116e-02, 2.856279391616226571e-01, 1.085644823773612849e-01, 2.035475699662278315e-01, 9.825823186966806677e-01, 1.604459057267847155e-01, 8.664578809484742294e-02, 3.928932383239807091e-01, 8.156849861010951885e-01, 8.977731435174852725e-01, 4.830507328883030249e-01, 4.605339141466361919e-01, 7.101937891723970608e-01, 4.664319771217820265e-01, 2.015187770100450859e-01, 1.418306124580388794e-01, 7.252612689610526964e-01, 7.894350112579334722e-01, 3.847293443670701807e-01, 7.489378448125264542e-01, 1.373577843986554803e-01, 5.600868273442118905e-01, 1.803714542602175008e-01, 8.875391649965327368e-01, 2.145548391907748098e-01, 6.531171881401989232e-01, 2.117019167902871035e-01, 8.575539781602273814e-01, 3.032033949106202608e-01, 9.909443328494488279e-01, 3.269730590473551302e-01, 8.896584589039090163e-02, 8.777590574688882707e-01, 3.963654656135182641e-01, 5.681380205245860626e-01, 6.932243650344791508e-01, 4.062723555519289764e-01, 9.167297423413313107e-01, 9.489644061277398013e-01, 2.043756784161556705e-01, 5.666867010864629073e-01, 4.105764055250221700e-01, 9.533224144749770090e-01, 2.813489145953706472e-01, 6.503194249166271979e-01, 2.910270196797729580e-01, 4.239988432796796824e-01, 6.602852989068187517e-01, 8.850062903222866151e-02, 1.131996354221498219e-01, 3.324201352611756977e-01, 8.329926495256283481e-01, 4.939325151538799252e-01, 5.344570023501128420e-01, 6.786039319053440710e-01, 1.881609177157340940e-01, 8.191167449325794658e-01, 4.291147450144980335e-01, 6.518746158921996381e-01, 2.810768075959709789e-01, 6.066284543604671953e-01, 5.959764830004972147e-01, 2.690818912331243151e-01, 5.667731362186494426e-01, 4.412245493462399470e-01, 4.993747088516812815e-01, 8.081196504515706369e-01, 5.379415658201963657e-01, 1.961598017318480769e-01, 6.567130859024793155e-02, 2.104448210800589913e-01, 7.047634773303114164e-01, 5.469096397361725703e-01, 3.358790334802140287e-01, 6.453269519730797654e-01, 6.606903082757620282e-01, 8.029801594676393428e-01, 6.983161359273108992e-01, 9.040978860800726880e-01, 4.051058170591297358e-01, 3.457762281251831049e-01, 2.637393623819191402e-01, 6.999471250931956767e-01, 5.102892830061938056e-01, 6.586400980560853657e-01, 1.066866456014616557e-03, 4.495059937513354309e-01, 4.820828172901297504e-01, 6.167864717609754521e-01, 3.010144127124965707e-01, 7.180077830776897263e-02, 5.917712382578954600e-01, 4.456364388551348199e-01, 9.923947191039655946e-02, 9.391079691563051224e-01, 3.382430199774218438e-01, 5.217960601138119797e-02, 5.049808055844218213e-01, 6.019048416448453676e-01, 9.882509214991930246e-01, 3.287057812001017432e-01, 5.404011621850665081e-01, 4.386397195172734298e-01, 6.182878614520476157e-01, 8.958567027604348310e-01, 5.226436023951767096e-01, 1.329887309062357525e-01, 2.400440695288088844e-01, 5.037140817527107073e-01, 7.122756426840740618e-01, 4.404394327073828941e-01, 6.447376758901891547e-01, 4.149216151200560976e-01, 4.382138863653226024e-01, 7.335188590528135544e-01, 1.098428414834631307e-02, 2.877488996349844563e-01, 2.549901716943017704e-01, 6.003908193671720905e-01, 5.723252931738239679e-01, 7.994379650643939073e-01, 3.315018454402461900e-01, 4.217696940511450054e-01, 8.998376593507739774e-01, 4.456442427309476040e-01, 1.126313834508677475e-01, 1.964553054810311838e-01, 3.859215982704882197e-01, 9.071796201302316787e-01, 2.576082615073373439e-01, 9.601314648057046597e-01, 9.319258621474393323e-01, 7.790184122316013982e-01, 4.666334883063579242e-01, 6.581814236943496210e-01, 7.616218333687604369e-01, 5.203196376162773085e-01, 2.061859319119079825e-01, 3.271478578022429806e-01, 6.395435636586396244e-01, 3.903408811390871036e-01, 2.176894805877176847e-02, 1.623566947566224689e-02, 4.291895685776002667e-01, 6.373286556311407169e-01, 4.184136279537660208e-01, 6.659115767003650488e-01, 5.749383261942022649e-01, 3.508684107249933626e-01, 6.122705849620476704e-01, 1.369859768624109575e-01, 4.884202120448076778e-01, 1.384199694867787322e-01, 7.773833195109850491e-01, 7.372850445681368159e-01, 7.991807803530489585e-01, 6.437769587175408148e-01, 5.120510579702697990e-02, 7.971217339056774209e-01, 8.656766228198046198e-01, 8.023849271188355781e-01, 7.368532363702076093e-01, 9.850929592361257203e-01, 9.616133893309509739e-01, 7.339249585097342710e-01, 7.353489918606720410e-01, 1.800934451497626376e-01, 4.674078190634635144e-01, 9.079512105061930960e-01, 5.350572700280773475e-01, 6.524885139732740091e-01, 8.203678063866721715e-01, 1.752581955221584054e-01, 5.607352733856847404e-01, 6.514133286281517110e-01, 1.654217827161774401e-01, 7.525001367965561405e-01, 8.470118635458735445e-01, 2.028397230431625564e-01, 6.297746295075601353e-02, 6.503616439263647520e-01, 7.131286082386046471e-03, 8.124183782207407001e-01, 5.561362023274690758e-01, 3.020534079336910094e-01, 6.101643825139372312e-01, 5.767461561472211340e-01, 3.512822370837170860e-01, 5.491158813639893110e-02, 1.804876669681019716e-02, 4.791912276566451800e-01, 8.151051033772415133e-01, 9.780155499298572863e-01, 7.220987618381338180e-01, 2.921524311068384172e-01, 2.951119256978310679e-01, 6.269540944936934368e-01, 6.953220384032318124e-01, 5.439209009259220184e-02, 5.110068486635014340e-01, 9.561989867073406035e-01, 4.592686948705142491e-01, 3.330661442978979370e-01, 2.637851203881352302e-01, 5.731774489856232835e-01, 4.745066328849271708e-01, 7.074338896177468916e-01, 7.953253944682551202e-01, 7.284984267767136146e-01, 5.703997932190426612e-01, 4.806151288152520906e-01, 2.737286805882895302e-01, 6.874833293378509458e-01, 1.252469934554396314e-01, 6.154947289701973023e-02, 6.508076118494886542e-01, 6.358098925328911077e-01, 6.507351600398114666e-01, 2.422853257430956642e-01, 7.116623407153326308e-01, 2.956357328044092493e-03, 3.558053463188782239e-01, 2.567814511587157011e-01, 3.135766619668576283e-01, 3.156878026485514521e-01, 3.989444919807549894e-01, 3.564560743990274894e-01, 6.078779382831183131e-01, 5.205486085060779811e-01, 3.148272073890161921e-02, 6.478499093475608150e-01, 5.512175786071551453e-01, 9.925916263040375220e-01, 5.686470109499855985e-01, 4.129247885751401448e-01, 6.467100238779380783e-01, 9.743863740326583756e-01, 6.636206695866017080e-01, 5.152346342219833453e-01, 4.161012011152802614e-01, 2.968032499907434785e-01, 1.789107158899078676e-01, 3.112894491533844121e-01, 9.926110225037922952e-01, 7.999325743626882756e-01, 3.019398706161171009e-01, 3.369833836832022422e-01, 1.690839562841479904e-01, 3.930985473050612744e-01, 2.084737925918734580e-01, 5.120661963931165683e-01, 4.311082912844659693e-02, 7.113646704999933013e-01, 7.930318707291841296e-01, 1.038625339875454828e-01, 5.523340771440354846e-02, 9.317742730172439147e-01, 9.321952993588410452e-01, 2.301896057488128922e-01, 7.894318408840875767e-01, 8.749243117075127252e-01, 6.554418841849090072e-01, 4.909335622162060431e-01, 3.761851320640888230e-01, 6.466028741513158984e-01, 2.197511006722973614e-01, 9.855114563748266221e-01, 1.409193400549799691e-01, 2.935909932475857034e-02, 3.145966254047324884e-01, 8.892599642798831860e-01, 5.221586403656421939e-03, 2.754788055008490777e-01, 5.650421703037904475e-01, 1.854115586197832566e-02, 7.702622536872045789e-01, 4.528328519137991837e-01, 6.703014662290776027e-01, 9.530828092718901523e-01, 1.189537255382290687e-01, 9.736733229684164659e-01, 9.725967734515679197e-01, 7.934472638334223449e-01, 3.266688386346899842e-01, 5.546217361117687927e-01, 2.027336335796817990e-01, 4.077811537755707816e-01, 2.488641483396234200e-01, 7.092175231391771861e-01, 8.905006505226470415e-01, 5.152853684947121815e-01, 2.557390027341077676e-01, 5.132280166521847597e-01, 8.573678362068560821e-01, 3.437493477131130931e-02, 8.588057526419582421e-01, 4.943156471147124864e-01, 6.375751263073399233e-01, 7.076222180821927221e-01, 7.272525392410389422e-01, 6.642835645274519640e-01, 6.342591445481634560e-01, 4.378166311501122676e-01, 3.743930979078564647e-01, 3.085724195489703559e-01, 8.983700962653259348e-01, 3.448667990761594693e-01, 7.928852487587926268e-01, 8.640583379669908304e-01, 2.927006714360856354e-01, 8.701802274167538265e-01, 8.416537793920644273e-01, 8.955249181562190408e-01, 9.350595760741114981e-01, 7.307349378182294020e-01, 2.481242332031539655e-01, 3.426394221490449699e-01, 3.759651283316699510e-01, 3.081261880326177649e-01, 8.624235292805382258e-01, 1.170730783649928386e-01, 2.003658670139291109e-01, 9.154178579917312542e-01, 5.760569987434237538e-01, 2.874704920735101088e-01, 4.527214060557187558e-01, 7.246562756092609359e-01, 7.920810087252582177e-01, 3.423382268899574088e-01, 2.544386052704679102e-01, 3.450593084058309890e-01, 6.847611645790621093e-01, 9.458521362597256399e-01, 6.318463173614073947e-01, 7.846599897678171454e-01, 7.744098311936862267e-01, 3.537941471624198031e-01, 1.085704957696015521e-01, 7.361830912359500489e-01, 2.165611004304334453e-01, 4.998381131954550693e-01, 8.295226832637851988e-01, 6.740799788216784716e-01, 6.905921006031609868e-03, 6.021363722826134079e-01, 2.925658600563149636e-01, 5.320672214155236501e-01, 6.092323453193304594e-01, 6.618032785291131370e-01, 2.530148303796835307e-01, 4.216736052801207252e-02, 7.183903283906065695e-01, 7.734873321490251530e-02, 5.654911027361457787e-01, 5.822216328811736785e-01, 4.570204074026060215e-01, 9.008480022063217740e-01, 3.510454877144675856e-01, 9.981025042795851343e-01, 1.677023879411210783e-01, 6.292738002895011951e-01, 5.565366754078712175e-01, 4.039085059782295262e-01, 3.769987627869365865e-02, 5.054187971803170143e-01, 3.309710055340124857e-01, 7.620772597181584285e-01, 3.304048915553814414e-01, 5.953562655068814768e-01, 5.750236764251254185e-01, 1.698448109741013679e-01, 2.917047681648655133e-01, 7.661399449877374090e-01, 6.796832384244425596e-01, 5.825921666236241192e-01, 8.959630612566372998e-02, 3.880119218605074805e-01, 6.653740773334906322e-01, 6.917010216637508035e-01, 7.546102857739492853e-01, 6.583929885028998452e-01, 7.989391732750986685e-01, 4.255910824203086307e-01, 9.758237544348069559e-01, 6.493068725264606877e-01, 6.021798113063968338e-02, 9.888534300624082229e-01, 3.142090602811201117e-02, 3.731252453967545679e-01, 1.692948618890003643e-01, 9.923309021816223430e-02, 4.797849778653455188e-01, 6.975805977417905979e-01, 5.765910523222943507e-01, 2.656386497813534309e-01, 6.116716827902929365e-01, 5.570946488128704355e-02, 8.981857256777718845e-01, 9.502196987198417988e-01, 7.337998566704151404e-01, 3.927095388793889752e-01, 2.062875429982502784e-01, 3.304772502084257213e-01, 2.502360652567435784e-01, 8.752372646377897247e-01, 9.680099284473933086e-01, 5.309297609070254831e-01, 6.811517183741796488e-01, 4.436661918548865935e-01, 2.122635055856109121e-01, 4.861783975796635793e-01, 6.030357717280057095e-01, 2.361513707925243510e-01, 7.919848502158204351e-01, 8.326750167609644482e-01, 5.857957234623989429e-01, 4.779203437327572690e-01, 1.057595085301046012e-01, 9.626688133527859792e-01, 7.887580177476557486e-01, 8.660663181957115597e-01, 6.489072309725415488e-01, 6.596658671902339011e-01, 2.239784475492608840e-01, 6.790769976774404526e-01, 8.818986600870331038e-01, 4.211704040694281836e-01, 4.096716977919925146e-02, 9.637309831590153975e-01, 6.541761369951176741e-01, 2.143477915078643714e-01, 7.441973806444109885e-01, 4.854674095551318458e-01, 6.348085744968912092e-01, 2.827571867749626988e-01, 6.892308607794414010e-01, 1.674169716815121778e-01, 7.271779273124693299e-01, 9.614313446314549649e-01, 1.473919195022048781e-02, 3.599066432664084769e-01, 2.876470406996578522e-01, 1.581760831684606572e-01, 4.196792740165228852e-01, 1.610542039136284298e-01, 7.443533677147188277e-01, 3.697660175467148425e-01, 3.231960497515230513e-01, 6.483635179109570323e-01, 7.227968374995777934e-01, 3.466139916569803137e-01, 8.319757603541377833e-01, 8.676508125407186300e-01, 7.430977918324686016e-01, 5.867249933670107831e-01, 4.363735287846732813e-01, 4.231911144205802722e-01, 8.459598903371842171e-01, 3.658231086502264362e-01, 6.707084914317315016e-01, 4.941802031879887619e-02, 3.781317589276064206e-01, 4.464997929177938474e-01, 5.818096511496394507e-01, 3.857015518262200127e-01, 9.040447457650516716e-01, 1.165933561153210118e-01, 8.412149372608659359e-01, 3.928706859410732166e-01, 4.655759491666672800e-01, 5.627986625147696209e-01, 8.290970873906082783e-01, 8.924339720785192664e-01, 5.180374771510529719e-01, 8.873073178996623844e-02, 1.443979413178904381e-01, 2.419742008365309213e-02, 3.977958749219479562e-01, 7.155034294435285158e-01, 2.462313765309438740e-01, 5.592609006507169855e-01, 9.834496909329245584e-01, 7.221524494351132528e-01, 3.202775759570801184e-01, 7.241316658092560310e-01, 2.830707146890455439e-01, 6.544034938014847008e-03, 5.749495951506609082e-01, 2.227049477394872912e-01, 4.101888318654131615e-01, 4.668071810075141714e-01, 2.281836227984981869e-02, 1.657944393387759674e-01, 6.674406677803786936e-01, 7.898014692548656068e-01, 5.920885438210502505e-01, 5.558955874042028622e-01, 7.896029414195063767e-01, 9.130970067743889862e-01, 8.106885093480209470e-01, 1.331188763130545794e-01, 1.169800279643421898e-01, 8.710233090733146000e-01, 9.531300026249430735e-01, 2.891526284287300186e-01, 5.412440945523955271e-01, 1.627626704407746788e-02, 1.391979772666587616e-03, 9.449134055697335777e-01, 1.740892452993878237e-01, 9.938847229411794659e-01, 8.756856453276546937e-01, 7.790607132435961590e-01, 7.447158254556713874e-01, 4.874683493605469486e-01, 6.240103261250861122e-01, 5.715855352103931253e-01, 4.028876719088204106e-01, 4.822804885567912869e-01, 5.481446212835022064e-02, 2.547924618521560935e-01, 6.898718223249717951e-01, 9.354094358905312712e-01, 2.055775344737160448e-01, 9.163817977081367694e-01, 2.551763380904252254e-01, 2.291118336617437024e-01, 3.361765013403726354e-01, 8.895093614171690755e-01, 5.269644527331746042e-01, 5.835617888434092571e-01, 4.251338705826280262e-01, 5.755730961569581750e-01, 8.369140915872652631e-01, 4.146958619996086171e-01, 6.947966941296832566e-01, 9.959030357761690100e-01, 2.732716775264961151e-01, 7.576242357691157503e-01, 4.757744006268658787e-01, 6.948352630211009906e-01, 6.998274635674986976e-01, 2.031190308841904768e-01, 2.049578303267281520e-01, 6.942484875732216620e-01, 8.964777455647531257e-01, 2.862838089908426725e-02, 8.844961306445544569e-01, 5.410135500517626594e-01, 7.794647352258413653e-01, 4.594287628480046015e-01, 8.376719858923752371e-01, 7.501583313854167656e-01, 1.522428576222879110e-02, 4.798783789519589504e-01, 1.677511583720530663e-01, 8.924178972814215127e-01, 5.773046897785543141e-01, 1.870924180523411695e-01, 5.963331069483649438e-01, 7.302458081324392225e-02, 5.147729452220909385e-01, 1.588535056585423655e-01, 6.689230638951515484e-02, 2.324881925841559283e-01, 2.764064559629868523e-01, 9.923660868985349770e-02, 3.950008689399755468e-01, 1.057278302028601402e-01, 9.917473148757676160e-01, 6.885567952310931439e-01, 4.392920715366673279e-01, 5.819304964998903706e-01, 6.493208521929892951e-01, 6.077042328802868543e-01, 9.514302229425171120e-01, 4.565775665472180389e-01, 1.010751124114496330e-01, 8.081202484474827585e-01, 3.283262880759789115e-01, 1.734629836432972083e-01, 4.429765776827400692e-01, 6.416824485020122815e-01, 6.355687054740327691e-01, 9.274551611970848208e-01, 1.732041400547081333e-01, 7.442203612547804159e-01, 1.963968212441182803e-01, 7.499987849564093700e-01, 2.363549836008212723e-01, 5.502954058987302721e-01, 5.446536159574498770e-01, 6.943749840904357429e-01, 9.858877931369072201e-01, 8.570921168662722911e-01, 2.477024095424341654e-01, 3.298542991104470024e-01, 7.042805863086782914e-01, 7.750156148637202813e-01, 9.730065803338163732e-01, 9.138133513316156753e-01, 2.097208932005342474e-01, 9.771738270401977289e-01, 6.730971910936774938e-01, 9.268818983052742322e-01, 7.560424317395550986e-01, 6.957734915499211859e-01, 9.623421507199236835e-01, 3.579854223037530758e-01, 8.691287230772597461e-01, 4.573902421308086441e-01, 7.583486302130176826e-01, 9.136551886283708068e-01, 7.673497965506700380e-01, 5.181903238691698554e-01, 8.372993973760066710e-01, 7.890778833994002150e-01, 5.560515834532446799e-01, 7.384471184711068059e-02, 2.689127504202622476e-01, 1.264091325308580038e-01, 8.659805761249146361e-01, 6.335481646585574556e-01, 7.354063242653402499e-01, 9.081835453026578797e-01, 8.748807858655847092e-01, 4.942749641266280247e-01, 6.427306750128317647e-01, 7.896947054098977237e-01, 4.153126826462200660e-01, 4.842821998663832117e-02, 2.564308940401263115e-01, 2.715774695320345433e-01, 7.163415588859065597e-01, 5.001061591160022024e-01, 6.063992188162018598e-02, 8.304820362561257108e-01, 3.022758812419766294e-01, 8.349737707505392459e-01, 8.661190631124116024e-02, 9.763065266239802087e-01, 4.292743715291109652e-01, 2.153181603365219854e-01, 1.438114643219347566e-01, 7.639705151420302931e-01, 5.960986961032017639e-01, 6.670409443218294765e-01, 4.263119302319695603e-01, 7.024511734976975896e-01, 4.504518549950181638e-01, 3.928662647783741635e-01, 5.315614934139852726e-02, 8.097544704080470446e-01, 2.494240538418654174e-01, 4.819304583797974773e-01, 6.042326233007582204e-01, 5.106481079572255943e-01, 1.582681103044348767e-02, 6.985036579940318013e-01, 8.345539809549278043e-02, 5.465385795136988856e-01, 6.998046434009708161e-01, 9.333394721662442439e-01, 1.444651301350837191e-01, 6.373581493444298030e-01, 2.402018929175815665e-01, 8.447838757277507105e-01, 5.729286350863346255e-01, 2.102137706217293567e-01, 4.946443925341400538e-01, 3.211412985782666762e-01, 4.755553560734440133e-01, 9.281564097649418477e-01, 1.092903172928732930e-01, 7.868528215377007529e-01, 1.428452788489445180e-01, 3.806230792130332330e-01, 1.940082073256883255e-01, 8.802053650640023763e-01, 4.358904111514378954e-01, 4.148549336147819844e-01, 3.372623257113718798e-01, 8.172651123614184387e-02, 3.856345466442157588e-01, 7.106021391372298046e-01, 7.449562457517110436e-01, 3.254613772900226132e-01, 3.351103418041131987e-01, 6.038839603031197489e-01, 5.004826566578791242e-02, 5.609503042905523706e-01, 7.835565602328337098e-01, 4.839499016386215602e-01, 6.588271446068163506e-01, 1.472687692337823484e-01, 6.795772759403315710e-01, 5.703583881805720512e-01, 9.541151768794622345e-01, 5.257775433966780376e-01, 4.596834752697087079e-01, 2.159075296813497413e-01, 7.992905981663194215e-01, 3.219849092163632465e-01, 2.759801076660949870e-01, 6.330203206819718931e-01, 3.302829944765868220e-01, 7.122434336137618838e-02, 9.694686531469699498e-01, 1.942149385895192426e-01, 2.119311104248242650e-01, 9.069835643905785338e-02, 2.243688578445675319e-01, 2.732750491617918359e-02, 7.794569071520723869e-01, 4.934935092354905684e-01, 4.359154885541254854e-01, 8.891601997590491413e-01, 7.319314424371289873e-02, 9.471391957001331630e-01, 7.769707354617078066e-01, 7.138601881456674292e-01, 8.608195347951698162e-01, 3.646863173633058119e-01, 4.132213711399047029e-01, 3.768602945877715799e-02, 1.302202835277394555e-01, 2.228433070350725742e-01, 2.287714181553918147e-01, 3.368404416909795973e-01, 4.487924026620611351e-02, 8.025977802840189579e-01, 6.029181812264666762e-01, 4.289311512775949020e-01, 5.658704588535269364e-01, 5.643895452535205859e-01, 4.330647482983035479e-01, 1.415219582324236669e-01, 3.877633269877437394e-01, 1.608603302390131939e-01, 4.279816050275855321e-01, 5.363992220598529093e-01, 3.942671253502353923e-01, 8.440102413896969358e-01, 5.383194966747563148e-01, 1.642315177804423362e-02, 1.116486837303803199e-03, 1.921534395440731291e-02, 7.267951508328938104e-01, 3.937684773010623474e-01, 6.554660945766425106e-01, 7.231765002799479536e-01, 1.350125910345670033e-01, 8.732120072388228627e-01, 7.013354067780160905e-01, 9.378304138083207175e-02, 3.127565628539178966e-01, 1.884602916322875021e-01, 6.558222241592651658e-01, 8.829529267207959498e-01, 7.784850821787139274e-01, 6.797687460791698166e-01, 4.086839712780120093e-02, 7.065410748730852064e-02, 1.403372778270657317e-01, 4.645120877950920657e-01, 8.981455432528671068e-01, 4.779431514793124336e-01, 7.837052780471097657e-01, 6.334194318006527435e-01, 3.252869506328862070e-01, 2.394012012454296290e-01, 9.286585550855368243e-02, 8.406522576028540028e-01, 5.232062785511638614e-01, 2.887892201341130116e-01, 6.246979027565228160e-01, 2.311775183007525047e-01, 3.656910652299441566e-01, 7.594200184772128548e-01, 4.392583460687697894e-01, 5.338897646373194084e-01, 8.293869439912898711e-01, 2.688295305802012591e-01, 8.681310396007676511e-01, 8.523902749516719668e-01, 1.897876452043317230e-01, 7.766354533168702279e-01, 5.008244218471357145e-01, 3.508198030684394064e-01, 9.909720312020253719e-02, 5.796744423248400002e-01, 4.714420199201703188e-01, 6.153521713541977300e-01, 2.481541482955604838e-01, 9.735091721561707212e-01, 3.747890310350615595e-01, 3.663430891317959182e-01, 9.903083303691815331e-01, 6.819594186172627248e-01, 8.910938024079704256e-01, 5.944393343678325836e-01, 9.565447129157240713e-01, 3.206992784930918355e-02, 3.731493988792527333e-02, 3.652923685470019777e-01, 6.653791415372796170e-01, 9.929693192423844073e-02, 3.335651576140598040e-01, 8.012105197778054411e-01, 4.561872150493277989e-01, 4.926413174399298378e-01, 9.588821172202165455e-01, 8.097881165887521604e-02, 3.776118045841440063e-01, 1.371160688567894248e-01, 2.521364003384213293e-01, 1.396514065595146417e-02, 6.995313473531764026e-02, 6.200212008541515774e-01, 2.423628084478429423e-01, 4.812320849457443761e-01, 9.602781248048669616e-01, 5.684239773687229658e-01, 5.651310772205506844e-02, 3.877883710424806507e-02, 9.469872492439760370e-01, 6.482830955134228912e-01, 4.289525365603594209e-01, 7.820089994248791143e-02, 6.095887588509565358e-01, 6.775734212980803403e-03, 6.945209601176456360e-01, 7.534756283435102286e-01, 5.871620954774369183e-01, 9.255284697322967435e-01, 8.307630358108518687e-01, 4.499349361439917705e-01, 1.279725564634205948e-01, 9.006855908966376889e-01, 6.708108601539629623e-01, 1.269334812826796721e-01, 9.966326044079824031e-01, 2.207735733402036576e-02, 3.700785139141474778e-01, 8.056132818393870743e-01, 5.873788966842954373e-01, 1.302421216340345911e-01, 4.859784084194805898e-01, 3.654928596225752446e-02, 5.882935651512304354e-01, 5.179545011807332733e-01, 8.408902797086100778e-01, 3.900371168606179828e-01, 6.839699242523838985e-01, 5.518101413974937919e-02, 6.589578635800792394e-01, 5.661512209374890414e-01, 1.553636226683668686e-01, 8.247437295699510118e-01, 8.180096728519603566e-02, 5.601583200335433776e-01, 6.194849135971277621e-01, 1.265231476291730217e-01, 7.725791484356101524e-01, 6.312643328221027028e-01, 4.646687078446000707e-01, 1.884178642330462949e-01, 4.788995500157977037e-01, 1.127707264428309264e-01, 3.155877281751304775e-01, 1.324613929529631917e-01, 6.569358525716020303e-01, 5.595366236372719682e-01, 7.054335350227215473e-01, 2.974868363152892714e-01, 4.772098827937025223e-01, 4.822571104773346051e-02, 3.113209700715279665e-02, 3.394120941923339241e-01, 6.351248825430481915e-02, 5.464932862435172289e-01, 7.759577446282103219e-01, 4.704717207700320203e-01, 3.191017718785749691e-01, 3.432713073752068356e-01, 5.468692055916912764e-01, 2.533599200635522006e-02, 3.088184383037901326e-01, 2.312781401830396044e-01, 4.169498149359857075e-01, 1.334531149517401150e-01, 4.775758188636468060e-01, 2.103144879893989808e-02, 4.925761534766489036e-01, 8.012462383791957299e-01, 2.336917561068092009e-01, 2.671728337804280540e-01, 1.001386602153829658e-01, 9.066166187298052570e-01, 3.709956183973505683e-01, 4.224741120578277553e-01, 4.663497626698731580e-01, 5.017175449435188339e-01, 9.158604627839904699e-01, 9.863946662682912536e-02, 4.732763880682067104e-02, 1.923736241009749437e-01, 9.175980043276943388e-01, 2.090388469744666744e-01, 7.097055666396859808e-01, 8.533512342054684341e-01, 1.976361880634310009e-01, 8.806711090775665163e-01, 9.311429217752139609e-01, 2.335717113248498011e-01, 9.442844070044219551e-01, 3.863339683522568069e-01, 2.377741986209004899e-01, 7.790152887264242265e-01, 6.802084947517019753e-01, 5.501310930460864279e-01, 7.409265057974064872e-01, 6.434175261750790797e-01, 4.503294982383428402e-01, 7.756744226872563930e-01, 8.689844723908661805e-01, 4.024771603006201959e-01, 9.610019123663751106e-01, 1.726685723035588094e-01, 9.542321640268716099e-01, 4.062922031180619675e-01, 7.910360086200063368e-02, 8.594559436796039842e-01, 4.964428171909074927e-01, 4.000282437056607021e-01, 1.471688796908060259e-01, 7.179267044874229065e-01, 9.641158610951553465e-01, 8.052000468956290735e-01, 6.726089602622574715e-01, 5.589912880913572302e-01, 7.352409056494232376e-01, 9.222020511157855704e-01, 9.765141771097537449e-01, 9.645425985927193191e-02, 5.818742859684962188e-01, 4.029113804062620652e-01, 8.972296415418516691e-02, 1.422278191962968175e-01, 4.725497374372783499e-01, 2.390305466639221308e-03, 6.252194582185057747e-01, 5.015018104999028337e-01, 6.857859581809726546e-01, 5.489905415111649978e-01, 2.066010255893045711e-01, 8.188080329646774125e-01, 9.814713609766512192e-01, 9.628835303234878351e-01, 5.214588105071613633e-01, 3.283576852121235512e-01, 5.993244099500544264e-02, 1.733332535960915854e-01, 9.261902801662620366e-01, 8.820075016282031832e-01, 5.642965504408254951e-01, 7.608936852452630184e-01, 7.658551738326332403e-01, 3.216454631092539873e-02, 8.559538511734086086e-01, 4.088342299709005756e-01, 6.382177634269849964e-01, 9.901479339377141642e-01, 8.772171080335571247e-01, 6.481330409610890075e-02, 3.355502207697732553e-01, 9.845509691454467083e-01, 2.161611017415594402e-02, 5.173249215130321099e-01, 3.350175864674291293e-01, 8.220292219241823184e-02, 8.301824073996870723e-01, 3.686364537790201013e-01, 1.453158555131540686e-01, 4.967254804677480595e-01, 3.010610584889806818e-01, 3.333099461980849054e-01, 3.304021052042107054e-01, 8.007519834593743724e-01, 5.174738228474381474e-01, 3.714930461404606366e-01, 9.051836636386050294e-01, 7.135510170141572406e-01, 9.225008049704296331e-01, 4.252783319286342345e-01, 6.076685405050121780e-01, 5.149025510525325755e-01, 8.253388527316199985e-01, 3.095926604178216857e-01, 3.070243422223482010e-01, 3.224637612541462195e-01, 6.360465558209584813e-01, 8.143187771908690920e-01, 1.150232428776580412e-01, 8.166091384773623840e-01, 2.502309892278594683e-01, 5.779773851667754370e-01, 9.839284812307393935e-01, 3.716189354678623991e-01, 8.131723528956360525e-01, 7.737017165495545523e-01, 7.970615125722541050e-01, 8.651370951106053253e-01, 5.948846222528595407e-01, 9.721861584456152616e-02, 7.449410177428034130e-01, 7.169220774511654570e-02, 3.003056879270994961e-01, 2.425080723410175665e-01, 3.235423358172425656e-01, 7.396169247454684736e-01, 1.880922201751608902e-01, 9.652257082180978331e-01, 9.386389739444177538e-01, 6.452496372556022486e-01, 6.253007983139506620e-02, 1.290095346856754144e-01, 3.879048524536060638e-01, 3.655482503420232065e-01, 5.891691745357617860e-01, 7.109397376896522402e-01, 7.287717715473858160e-01, 5.299815528885281068e-01, 8.011816226702651589e-01, 4.332351410777900147e-02, 1.076379833857870200e-01, 1.337005230942352185e-01, 8.170441071119589616e-01, 4.562182668211662850e-01, 4.396804082548554371e-01, 2.133469435770173894e-01, 2.544524763141959300e-01, 5.942140043086885370e-01, 9.432179273605179048e-01, 6.075151139425979951e-02, 8.173686076139182743e-01, 6.798308088497103663e-01, 8.658119965227442094e-01, 2.741209374403162369e-01, 6.119081121943089618e-01, 5.578758972936773697e-01, 9.457954160658483822e-01, 8.028083477212785146e-01, 3.996786146940919937e-01, 2.075655992532911831e-01, 6.565317489517327743e-02, 6.149371932360568893e-01, 6.723458733716047853e-01, 4.910496055054632270e-01, 4.478028458813503865e-01, 7.236835494743669717e-01, 9.783425093681117346e-01, 1.725646354417678940e-01, 1.512258387854514829e-01, 4.586515215941088797e-01, 5.153085457892941923e-01, 7.332432666039238045e-01, 5.001747115415285938e-01, 9.363319933597460398e-01, 9.308625583082708044e-01, 8.400786630100262053e-01, 9.920910607876523013e-01, 1.215344937508658490e-01, 9.624524961512808119e-01, 4.467601374335921638e-01, 7.679089357423930506e-01, 7.748270299280017870e-01, 5.353556498821722132e-01, 2.868590223632214165e-01, 3.559837896978728655e-01, 1.830779827654733793e-01, 4.679724226012823562e-01, 6.392519954834756657e-01, 4.389067175693394107e-01, 7.855911306134716332e-01, 1.705488067427904930e-01, 1.522061404963262754e-01, 8.203362426415097275e-01, 4.077004853377511062e-01, 5.533039826745795864e-01, 4.606406790461489154e-01, 1.104999480842286663e-01, 3.021589225894918407e-01, 6.584016442670614921e-01, 8.059479024928454249e-01, 4.241831458789686593e-01, 2.969795104901923888e-01, 2.355124068655063338e-02, 8.389143266461719373e-01, 8.696784383706981925e-02, 9.512599608246997684e-01, 7.018978877050356946e-01, 4.343930879832406111e-01, 2.841796040381501243e-01, 6.402668564212842250e-01, 3.368434357722333572e-01, 6.078081267601014720e-02, 7.077512652281288119e-01, 9.674665313512692544e-01, 7.373810763043975314e-01, 2.357563368382479263e-01, 3.300699299160290701e-01, 7.902219615501604455e-01, 9.869645203152964674e-01, 9.687870874080455330e-01, 4.973511081939362977e-01, 2.500007041814905073e-01, 1.979686530029651503e-01, 9.309863002697067458e-01, 4.347294521329433947e-01, 8.871552340440211903e-01, 3.170968725534920041e-01, 1.347209376977639428e-01, 2.637931124983617925e-01, 9.221950775229519337e-01, 3.035277592377110326e-02, 9.975565411405213911e-01, 6.989028804816695972e-01, 4.468060652856681858e-01, 4.278966795620558483e-01, 6.403959565975431145e-01, 1.201040395679468277e-02, 2.013354511134564373e-01, 9.777839033687105719e-01, 4.171153727043060977e-01, 1.151507502716149905e-01, 3.854653524793057451e-01, 2.276003019255423004e-02, 9.671019794284589910e-01, 9.429081322169415857e-01, 3.116324126203658396e-01, 2.579753067164342051e-01, 5.171619531467048780e-01, 4.577107839086217989e-01, 6.389839814188783551e-01, 6.284863718417263989e-01, 3.572484984001907948e-01, 1.302939248808277495e-01, 9.703816713584730025e-02, 8.485163051968430681e-01, 1.954165814044756672e-02, 2.327635923413614305e-01, 1.474167711146799065e-01, 2.750214065935507185e-02, 4.957571280254323143e-01, 8.356400854209052875e-01, 2.616489067369093258e-01, 4.770373785217280616e-01, 4.633377123917388207e-01, 5.534199218169689738e-01, 1.777378450781697539e-01, 3.522203477207105915e-01, 7.342686625274723600e-01, 2.076031796920100869e-01, 9.853041964441796585e-01, 4.500239947663217110e-01, 7.301079123585253461e-01, 9.851512250634268941e-01, 9.699004781272165809e-01, 6.527253204133677267e-01, 1.820268125922003266e-01, 5.406253544776465914e-01, 1.984172916758454586e-01, 5.698924061563247490e-01, 2.518182573649512812e-01, 3.439465656828588069e-01, 3.881749822026643315e-01, 5.214134934336511762e-01, 8.521496138723012592e-01, 8.583655521168443991e-01, 8.278632609045105673e-01, 1.305018306833699848e-01, 9.337011163689007409e-01, 7.209524321529362512e-01, 7.106849406553847892e-01, 7.109831547166785004e-01, 3.646951189167753626e-01, 6.451772426297599505e-01, 5.566543031220043680e-01, 4.074647543949246331e-01, 7.811895032516937010e-02, 8.301306514569430917e-01, 4.118871255876636051e-01, 2.694982125901451697e-01, 9.410244874250121017e-01, 2.115716951709379900e-01, 2.232343257165139150e-01, 8.141589889423196391e-01, 3.104724616588292949e-02, 5.594932108385760605e-01, 6.401660294885831437e-01, 1.088042142651422378e-01, 3.287480656195611584e-01, 4.150529676763483611e-01, 6.810818243157858998e-01, 1.186420656721959149e-01, 9.873644235015242854e-02, 8.369569668127494477e-01, 4.188735836735988927e-01, 9.212831541461897755e-01, 7.187550285523065519e-01, 8.090119216634125143e-01, 5.272480107102221758e-02, 8.476097196497244246e-01, 5.407860432060301870e-01, 8.459570466792231125e-01, 8.667450062993942161e-01, 5.299203092962452288e-01, 7.208034855050124978e-01, 1.684623138366650175e-01, 2.600659087883727127e-01, 4.552913460685367730e-01, 5.785844428754036706e-01, 7.317192412699664583e-01, 1.643842796421206842e-01, 3.288920517045526570e-01, 4.675051312475875243e-02, 1.261487619738526078e-01, 9.945554326613407214e-01, 8.455528816158108807e-01, 3.163786927887725087e-01, 9.461838797878207030e-01, 7.537103497231496529e-01, 1.824720907822038052e-01, 2.167215671756295148e-01, 1.782121321402995728e-01, 9.790991057908765560e-01, 2.602539528562888282e-01, 5.696843083753214687e-01, 6.455765343850450311e-01, 5.672423855073018828e-01, 2.217890052613279150e-01, 6.634980768027063380e-01, 9.499165703547307604e-01, 9.346942263556653474e-01, 8.157472645508053732e-01, 3.726148416153892695e-01, 5.827266624974798415e-01, 8.352063163881444652e-01, 8.270887689578054758e-01, 3.790386951465066767e-01, 1.477397775589127382e-01, 2.788731421335357563e-01, 5.096254940422068058e-01, 3.795314108834406119e-01, 5.147031313530835150e-02, 8.775290831001482106e-01, 5.515561380639814049e-01, 3.630695736469883306e-01, 3.435466555403187128e-01, 9.888239949353441194e-01, 5.044017618710682216e-01, 7.138097748534660836e-01, 3.691742095642026045e-01, 6.580519869569659841e-01, 9.132620579508712311e-01, 5.415554467973988650e-01, 5.869292447623929432e-01, 8.915445141412223773e-01, 3.150544694292334857e-01, 9.150093348810053318e-01, 7.453431804675040295e-01, 4.148306155278538299e-01, 5.238017632324316608e-01, 2.685438187082579975e-01, 2.269546964472349548e-01, 7.991342904382808809e-01, 8.354514200988903960e-01, 8.858733335826962652e-01, 1.690000825541397578e-01, 6.573911677949662025e-01, 7.295298750255025944e-01, 7.690170979670991613e-01, 4.971422514806774773e-01, 1.669607427945878353e-01, 5.691960958304118079e-02, 5.643713751929351208e-01, 5.354308533699992934e-01, 3.705119019480482279e-01, 3.606563697516235178e-01, 1.297570238663816322e-01, 7.411932781701607853e-01, 7.626368692575016262e-01, 6.047447002813135519e-01, 9.078464211205607981e-01, 7.662906695324697148e-01, 9.974747694352089633e-01, 4.873348353528777488e-01, 2.052074792315055074e-01, 6.690038804567042252e-01, 4.134367518109997586e-01, 7.816799948000162646e-01, 1.506035614098412759e-02, 8.236168596176715040e-01, 4.279113920758342293e-01, 8.473711093972372543e-01, 6.502517500230453606e-01, 7.706545611685601260e-01, 1.237162792261271710e-01, 8.618520825381100758e-01, 3.833347592033354290e-01, 9.280007262024505543e-01, 7.078720015989989900e-01, 7.464545921321912303e-01, 2.337847386959001350e-01, 6.336759775156528551e-01, 4.233020329935439086e-01, 6.789392486836915985e-01, 9.284410449917990249e-01, 8.076536642074161332e-01, 3.968019060676578058e-01, 4.491832672604347265e-01, 5.211706673481913965e-01, 2.066598867332693490e-01, 6.610383239533816901e-01, 5.086032788435603802e-01, 6.000482629002331508e-02, 4.141583795650307098e-01, 1.897631079582725588e-01, 4.944115619163884090e-01, 3.144949350766526597e-01, 5.701858591894405359e-01, 3.703390296280349436e-01, 2.547695574392834783e-01, 3.430196448059233960e-01, 3.674753331730452044e-01, 9.112344117017386891e-01, 3.578636283143758062e-02, 7.856637581503660428e-01, 6.618891625137449664e-01, 2.433061229998688957e-01, 5.278213263711650782e-02, 6.753169824711295899e-01, 4.860940018753091840e-02, 9.580051463754296615e-01, 5.306399051342010065e-01, 9.889764504067452000e-01, 3.169924841074523436e-01, 5.470160187472680180e-01, 9.122477311546359768e-01, 5.573271141634358328e-01, 6.771922761500043242e-01, 7.006898903254517030e-01, 7.070270315730469157e-01, 6.866231194944065752e-01, 2.276897617729335410e-01, 7.987257462369478089e-01, 1.901425056268346014e-01, 5.868642110603908835e-01, 1.068862549882835244e-01, 5.447592678554377121e-01, 9.320056147470636709e-01, 7.624557730189653881e-01, 7.960067743364094284e-01, 6.054127825729583856e-01, 4.058168837169227605e-01, 6.235625594418795492e-01, 6.865886161250445152e-01, 2.594110384447544382e-01, 1.897329399786810422e-01, 3.238669724864778332e-01, 9.978968008623637642e-01, 3.393726126534898457e-04, 3.647725562718536207e-01, 1.584752362183325658e-01, 6.500045817233404515e-03, 6.862643570915170077e-01, 5.180023239513983357e-01, 6.289696458629490117e-01, 7.280482296909434048e-01, 6.092088593451959744e-01, 7.287537234251330043e-01, 5.863455954696585870e-01, 5.713707549957014464e-01, 7.105522729282210959e-01, 1.419813607801647115e-01, 9.877337406419238741e-01, 5.098728438994030165e-01, 1.572145817845647664e-01, 6.909309173365669743e-01, 8.508341045427278981e-01, 3.192543332886358387e-01, 2.618160651792345583e-01, 1.869521811384213250e-01, 6.131334667859610343e-01, 2.468726370827789007e-01, 1.712442593372263400e-01, 2.041648711675902172e-01, 4.747429076980074769e-01, 9.479053726018816795e-01, 1.324806674360284042e-01, 2.187243395502865700e-02, 9.584306174452033034e-01, 8.327129492208510397e-01, 9.106675173751652697e-01, 7.611290857265163856e-01, 3.864801984768364562e-01, 1.012704396774683213e-01, 7.484739596046696697e-01, 2.209766922841799597e-01, 6.557029381288693726e-01, 6.013214352641675642e-02, 7.661559749045009360e-01, 4.642542285482207376e-01, 5.564243412868762340e-01, 4.127131709565148854e-01, 9.333296348802673226e-01, 6.642732897055242391e-01, 5.357608803876895420e-01, 4.768942617146481600e-01, 9.745252243360972288e-01, 4.223258971289230446e-01, 9.301265596092276322e-01, 4.339719721731202795e-01, 9.413058316031938100e-01, 2.182701237925015192e-01, 2.397743978340455828e-01, 6.971324134077102608e-01, 1.266940014312685214e-01, 7.493060829322439886e-01, 6.569539109371580476e-01, 9.968007412431663106e-01, 8.123948180514569684e-01, 9.054315389630639421e-01, 5.333996142917073469e-01, 8.299149013106984496e-01, 3.548189475778110169e-01, 7.919939362587216092e-01, 8.340794901445061083e-01, 1.912238152896574284e-01, 7.099502175182643704e-01, 1.817455361902159949e-01, 3.461660248358376935e-01, 1.032686242250388381e-01, 7.262665959364339452e-01, 7.063000015425596745e-02, 9.663754699207453003e-01, 6.999692343961009255e-01, 9.288812921690632329e-01, 8.390741882993723033e-01, 5.749041941632956343e-01, 2.911652367083847337e-01, 2.110857072229840314e-01, 6.216337109541150152e-01, 8.113071684435453346e-01, 2.824014621402037295e-01, 1.352937475025788316e-01, 4.605331539299021837e-01, 5.738555782559818796e-01, 6.355349744919661648e-01, 2.675382855461281295e-01, 8.847693181578460964e-01, 5.440722128270490954e-01, 3.316519551130981402e-01, 8.235655769107982360e-01, 6.640876019976390543e-01, 8.717690411886441781e-01, 9.251127547133211060e-01, 4.191424724651320322e-01, 7.949685237135375449e-01, 8.185436030802557550e-01, 6.226038310813495485e-02, 3.599339026526565677e-02, 3.850137584936472734e-01, 8.137619162478897383e-01, 7.137982160618004945e-01, 6.674386764739752287e-02, 1.927148221160094599e-01, 4.993807089261693699e-01, 3.936478909686920713e-01, 3.450802317656314067e-01, 9.343855996405199260e-01, 5.758959493740422042e-01, 7.059033303333022147e-01, 7.796002657745014774e-01, 6.727656552177422311e-01, 4.489028348075564945e-01, 9.386503332922390141e-01, 8.825650180069560813e-01, 5.008791134163780301e-01, 2.071334105441604845e-01, 7.259408517804806227e-01, 1.266358738810893503e-01, 6.161311499003403747e-02, 8.139818814514551693e-02, 5.869022060692622444e-01, 2.646176410138163515e-01, 5.432846388576371144e-01, 8.541821183998404843e-01, 9.311106569798335286e-01, 2.925579530229555428e-02, 5.807919529699726580e-01, 9.161764321153822443e-01, 5.965988310934486893e-01, 9.072337221943741481e-01, 6.980704800383580322e-01, 3.402967313735284494e-01, 6.291339253630556794e-01, 6.299141138226693748e-02, 6.240462139967550836e-01, 6.114151797245696018e-01, 4.530379608193952912e-01, 9.440525714374882471e-02, 9.400773064682107494e-01, 7.260709671805721799e-01, 4.454231069737959459e-01, 9.219421682401639506e-01, 7.865893463069162372e-01, 9.435287839689896483e-01, 7.360589094940934718e-01, 2.368880635067835139e-01, 6.314209012460340054e-01, 1.460326073298879035e-01, 1.269986082200317765e-02, 6.753213879249065910e-01, 5.101368362969992132e-02, 9.596417549339388842e-01, 4.081053533279556111e-01, 1.141552950962267249e-01, 4.290832856192767220e-01, 4.192335229188276502e-02, 7.756905216480338705e-01, 2.997504234934298406e-01, 4.993674736515567592e-01, 7.351430477008799036e-01, 2.624249735199310832e-02, 2.878255047425354318e-01, 7.194473370515832578e-01, 6.736104614309665894e-01, 9.405934622774339005e-01, 9.589730550057709579e-02, 2.656600680213984655e-01, 9.583026130068779125e-01, 6.585080354875801900e-01, 5.227000688782708071e-01, 3.405103562109895177e-01, 6.721714467342909671e-02, 6.014608292422964908e-01, 7.029092803521820587e-02, 7.037457997642594387e-01, 6.192624769091804593e-01, 9.426327714682732895e-01, 1.364158320348541342e-01, 6.458489795006257250e-02, 7.853796241252580801e-01, 8.661255075114908664e-01, 1.700956390612242963e-01, 6.520221555251634049e-01, 3.941368544349833636e-01, 6.313619044674853020e-01, 4.321971488718476251e-02, 3.099993155947546319e-01, 5.445014351339456660e-01, 7.436068424073826177e-01, 1.987128577444857991e-01, 1.835542193303300040e-01, 1.328158260950486058e-01, 4.312581696939185951e-04, 4.947961816366283072e-01, 6.256225537352593236e-01, 9.939688538829586362e-01, 9.165513042156068213e-01, 5.767980882539123222e-01, 2.360343333577537284e-01, 7.643080714649971297e-01, 6.083999882468433401e-02, 7.840717626217100777e-01, 8.633780739297601814e-01, 9.188731935108255255e-01, 4.441818390799133764e-01, 9.571842811177115884e-01, 6.549462534268435387e-01, 7.509844147078619248e-01, 2.211765616806010692e-01, 9.777106064791238893e-01, 9.894963178052501585e-01, 7.380102817221436684e-01, 7.603314623445081022e-01, 1.328556617448749533e-01, 4.238010538273910277e-01, 1.161174713756743387e-01, 7.421211734620887235e-01, 7.155764868535622325e-01, 5.390087176600327767e-01, 8.029687013991970712e-01, 4.745071193377692342e-01, 4.058249843410891011e-01, 8.836694305019777984e-02, 8.224461876317182840e-01, 9.696514559180957615e-02, 4.468400115924533317e-02, 5.301557998297758978e-01, 2.644618703210252497e-01, 6.984410740479333191e-01, 3.909207935898798003e-01, 5.798579669770759226e-01, 1.694378396746726578e-01, 9.666980432677747537e-01, 5.818175305355431925e-01, 3.735143729294534420e-01, 8.063937885608393197e-01, 3.659703118682330891e-01, 6.534216087380068094e-01, 3.798116802450630103e-01, 3.520122186367817818e-01, 8.005552429294608974e-01, 2.050646978890529326e-01, 2.973860029442503272e-01, 7.251224305776529100e-01, 6.735838147659644060e-01, 7.585618802653788517e-01, 1.820442287580433804e-01, 9.528360813627470005e-01, 9.461180657668080141e-01, 8.528375516097380649e-01, 5.408090203622007985e-01, 7.604629394008834975e-01, 9.806136411452186230e-02, 5.741590980872691707e-01, 6.804232100274319739e-02, 6.539520686061515153e-01, 6.148832827841403947e-01, 7.902762583664817431e-01, 4.139711126130593555e-01, 4.861533500073293435e-01, 3.349095508003550100e-03, 8.143662180773461046e-01, 9.639892633968460967e-01, 7.542315892152032242e-02, 1.901826585182117280e-01, 3.939433658250971609e-02, 4.096621440247881774e-01, 7.812207322362298978e-01, 7.415402631911974241e-02, 1.964068059258789467e-01, 3.127997891934989338e-01, 3.325453543871997875e-02, 4.359407874145841966e-01, 5.851613241103222895e-01, 7.755213680575675506e-01, 5.021804456196561350e-01, 8.725183974932306796e-01, 5.138597633519257357e-01, 5.300747601741641057e-01, 8.079714923074425847e-01, 2.799913894598431985e-01, 1.122728216803889484e-01, 9.518471124715796039e-01, 7.328310070939826337e-01, 3.407457722178422466e-01, 6.293572915948476565e-01, 7.677917541937099299e-01, 2.822909162047872456e-01, 4.887055068098646315e-01, 9.239929274966132700e-02, 4.596974158152631884e-01, 5.426587399836156900e-01, 6.931251773803225047e-02, 7.470693970430840603e-01, 5.377296457471109070e-01, 8.681742228123353611e-01, 4.019170921159176402e-01, 6.362337049586030968e-01, 2.063877457196931081e-02, 4.070533761653645777e-01, 4.415630821235737025e-01, 7.368378244023410240e-01, 9.054431836767288244e-01, 4.638535806934227512e-01, 7.149517512090005633e-01, 3.439893824744781892e-01, 7.039532996865718317e-01, 4.286840759596783137e-03, 3.279378849276119376e-03, 7.329000432883181482e-01, 3.528598575384699343e-01, 5.528877575475006356e-01, 1.683305347415551267e-01, 9.586946016313248053e-01, 9.418057721443096053e-01, 8.215365900938149946e-02, 6.238288305245405230e-01, 3.123577739381502294e-01, 4.657960856608956424e-01, 2.825978231578295946e-02, 8.457010722700935013e-01, 9.207174333605060434e-01, 9.485290175417284697e-01, 8.041238973637545584e-01, 9.542742441964351396e-01, 4.611888323752544316e-01, 6.458095984912974874e-01, 2.639948276634789259e-01, 7.424568275805445428e-01, 8.961999282489719887e-01, 3.984681865746007023e-01, 6.703264287248347948e-03, 4.147632878949971125e-01, 5.952632696639117427e-01, 1.517501544444376238e-01, 6.044217878498953089e-01, 7.605721246580491313e-01, 9.803827041993266878e-02, 9.669587918905530044e-01, 1.535228196838277492e-01, 7.144259023473618908e-02, 3.825196836235590925e-01, 1.629470947732448438e-01, 7.632645716453201334e-01, 9.243585094036590455e-01, 6.710322917293408684e-01, 9.419797899347368553e-01, 4.468248143794524840e-01, 9.478911596041638132e-01, 7.439653575967266619e-01, 3.588398947296898567e-01, 4.451109219960529551e-01, 6.598848020482475096e-01, 1.255716203326582847e-01, 9.295396463574203683e-01, 2.913059502177818283e-01, 1.185501078593837049e-01, 1.838101850814414240e-01, 7.393262471239679945e-01, 5.372123651012602474e-01, 8.458961581613733127e-01, 4.985364611429633080e-02, 8.768873087489210683e-01, 8.025210054251457059e-01, 3.846808601401107142e-01, 8.936350519517451962e-01, 6.010943186145388806e-01, 3.243386208994005204e-01, 5.878632229569247247e-01, 3.021931189270951612e-01, 6.471683302924453596e-01, 1.105818734039283185e-01, 2.082860963162976031e-02, 8.689368345588138753e-01, 8.082866551840870439e-01, 9.352996953718545337e-01, 6.466063919637538016e-02, 4.084737745752408666e-01, 4.214317619052378450e-01, 3.148417168062475624e-01, 3.209856624759584443e-01, 1.632369146854372177e-01, 7.638862273828797012e-01, 5.844750031367114129e-01, 9.016437444621813180e-01, 9.026007618957975209e-01, 4.095159409127879235e-01, 7.822194079183925064e-01, 3.181293000598227061e-01, 2.178732623041214067e-01, 7.630423239328220086e-01, 1.471624967380390780e-01, 4.011818097819376261e-01, 4.189242267835241451e-01, 4.839097514264683042e-01, 3.607856628777117991e-01, 7.253226450695191563e-01, 3.061493870665342731e-01, 1.319067309955617162e-01, 2.469939960265313539e-01, 4.666658979985855438e-01, 6.590133110783614745e-01, 1.059651920260757385e-01, 4.131621852655248950e-01, 3.638113839264401350e-01, 2.156948483675766026e-01, 4.155668589461283258e-01, 1.090688856492504355e-01, 4.865367386201048805e-01, 9.847355215071795786e-01, 8.052329047059929579e-01, 7.072356792505538614e-01, 4.470811062810339798e-01, 4.439777439977213302e-01, 7.033712748719221919e-01, 2.673850600888080797e-01, 1.976634066060100614e-01, 7.150533968981306332e-01, 7.485441040555884662e-01, 6.354555341806721325e-01, 6.078114064775864966e-02, 8.586894120535861763e-01, 2.751823607724446785e-01, 5.653373052513414876e-02, 5.553960077280432062e-01, 9.452574374227984411e-01, 2.458080032727440190e-02, 3.124600625153082789e-01, 4.298583225827523613e-01, 7.597559314516511009e-01, 5.638352849607246586e-01, 5.613054397240268001e-01, 2.593522625256421410e-01, 9.576556615855650323e-01, 4.704412002704487228e-01, 6.923050159334258602e-01, 6.819256235665041022e-01, 7.021104433049192295e-01, 3.041502082109032168e-01, 9.934673998101389847e-01, 4.290594478099595821e-01, 9.289662494382250335e-01, 7.664438627173191243e-01, 2.817982947001236305e-01, 5.460731230957512894e-01, 3.288125196246926563e-01, 2.797601264939401644e-01, 2.288578493700300365e-01, 6.526464022860626324e-01, 5.637886728875949119e-03, 8.426138953316146818e-01, 1.390984289899210302e-01, 7.476566317167502307e-01, 5.726340348300894556e-01, 1.634982654500158894e-01, 5.569114959318561819e-01, 9.087025387204791249e-01, 8.291573747944400719e-01, 5.178323701996865314e-01, 1.907592473494091889e-01, 2.190098281688569182e-01, 2.149040612780079296e-01, 6.784709533574071472e-01, 2.577689940293791393e-01, 2.968670708379176904e-01, 7.759657660351767516e-01, 7.007390655796975620e-01, 4.512028186248578931e-01, 1.271143411002296879e-02, 5.899687265652220347e-01, 7.083912463033904539e-01, 2.109565580456242706e-01, 6.435429869846899242e-01, 5.139899852927577451e-01, 5.895300653193378260e-01, 2.572304579135885616e-01, 4.965025336976312542e-01, 3.349301630787597517e-02, 4.208892789829484227e-01, 5.168234711074378707e-01, 9.056256613218911511e-01, 9.292949062813260497e-02, 7.691515720869992467e-01, 4.739533316848072025e-02, 8.944590930571305609e-01, 2.986424386514971996e-01, 9.030734504134767526e-01, 8.282339979849829836e-01, 8.381792516177588581e-01, 7.944911808551525789e-01, 1.992638551373725753e-01, 7.830525616712614712e-01, 7.371588605874849209e-01, 4.843894002650658281e-01, 6.808491995503370697e-01, 1.481982544752093178e-01, 1.951760706018153546e-01, 5.334290305966069706e-02, 2.154963735203554165e-01, 3.826487331035490769e-01, 8.976184529479476204e-01, 7.010444305676490073e-02, 7.115085318309476436e-01, 5.117155131740440677e-01, 2.129243909759237774e-01, 5.084986735490722998e-01, 4.617736851250985389e-03, 4.181916308975403562e-01, 5.987364154164011021e-01, 4.394552308364750859e-01, 6.926094842936283968e-02, 1.105297715481178139e-01, 2.770160575039334327e-01, 7.060169136086635877e-02, 4.198641388059529689e-01, 1.266963232682935536e-01, 7.128839023461905899e-01, 5.215677022670830443e-01, 4.299317249036137545e-01, 7.951948737380247489e-02, 2.850398170562256639e-01, 1.096575739928645939e-02, 3.205170933380698806e-01, 8.589537250514102107e-01, 7.895889939972651206e-01, 1.980582213437560857e-02, 7.699292091273743921e-01, 8.993815730847657397e-01, 4.639428107394103634e-02, 6.488187384297115778e-02, 3.967237929620989201e-01, 5.608938314438079997e-01, 2.073388156017726136e-02, 1.718974634147879196e-02, 4.112739113954569925e-01, 4.470558519953256038e-01, 5.621671214373655801e-01, 7.726884349024599856e-03, 7.341097108616034816e-01, 5.963249825098051460e-01, 9.853518667447014323e-01, 3.807190000735143943e-03, 5.171300961858685957e-02, 1.534396518231444517e-01, 3.933012873067625037e-01, 8.124371937829615309e-01, 4.106873673676004755e-01, 1.689322787873701742e-02, 3.233092381886207844e-01, 4.067466980588609893e-01, 8.514601314234990781e-01, 4.669351374559605472e-01, 9.895363998322912955e-03, 5.863818019357767142e-01, 4.588477216026392025e-01, 9.467207422324872002e-02, 7.634023694650300673e-02, 8.058190017178696873e-01, 5.095477226088350742e-01, 6.295457255011324693e-02, 1.400234918704868492e-01, 3.733986868488023414e-02, 9.993475213223805831e-01, 9.944390083145898673e-01, 4.427652790015637607e-01, 4.739530702533689133e-01, 9.009101920543636233e-01, 8.954445833854850489e-01, 7.475194794385343622e-01, 6.252992352552073640e-01, 1.116502513842319577e-01, 9.075723944216338435e-01, 5.999851306403887197e-01, 8.464629621553246275e-02, 5.233274525512272568e-01, 7.712575765640331538e-01, 9.303850082681492939e-01, 7.970694116538100671e-01, 3.999657827399374921e-02, 8.834790407558751335e-01, 8.223811773015131665e-01, 2.935031817071483418e-01, 3.436938430302560743e-01, 4.294403538129112907e-01, 6.856349768498173347e-01, 8.138784354463389770e-01, 7.272526175095872514e-01, 2.434557181705291826e-03, 4.777670120744540450e-01, 9.791829028572449634e-01, 1.135304496280403752e-01, 4.402602556028654135e-01, 7.881464518874160552e-01, 6.555191680132523846e-01, 6.146608965011657322e-01, 9.560694348701040957e-01, 2.918226923158476760e-01, 6.320519968952127421e-01, 2.565643485398714785e-01, 6.263757833318296664e-02, 8.232628492731133285e-01, 7.981782178865659549e-01, 2.581786301744140033e-01, 8.600707279966673946e-01, 7.467130904737075969e-01, 4.649894790955556578e-01, 4.609839507994827335e-01, 6.081678375044541340e-01, 6.528581595637997781e-01, 4.759315549398669687e-02, 2.885572379590768954e-01, 3.671659721303693891e-01, 9.943735069124424175e-01, 9.793482018584908078e-01, 8.014799665542063911e-01, 8.571322300058602239e-02, 3.492892169979094213e-02, 2.301487990116497240e-01, 6.065185561012820248e-01, 4.691988009211606886e-02, 9.406061730307584412e-01, 1.112850702730675684e-01, 3.618388005821374098e-01, 8.253998910258553146e-01, 7.220496070154815982e-01, 1.566692068095016377e-01, 9.702754113390829049e-01, 6.098235231455998440e-01, 2.550130355145165395e-01, 7.441600390906278895e-01, 9.432286987296071290e-01, 8.776919959205110588e-01, 5.885875393602701955e-01, 3.877397862266836470e-01, 9.180644472661260158e-01, 1.861615186328941518e-01, 7.039899117065117062e-01, 1.487861125881648761e-01, 4.303375665002612260e-02, 3.636395553498061178e-02, 7.723029541371029261e-01, 3.842504933213358731e-01, 8.272017822382201624e-01, 8.952639194329856664e-01, 8.203228374401978495e-01, 8.903394887703751370e-02, 9.179405450778721498e-01, 5.283148233527902304e-01, 6.098950931015292287e-01, 8.721372068765061991e-01, 5.661158474198307172e-02, 8.837768690991033849e-02, 6.356780277118079248e-01, 4.298724215510459912e-01, 9.138723059794064962e-01, 9.047126996883807504e-01, 5.796085447023414661e-01, 4.352057896419486704e-01, 5.825423613495521735e-01, 3.192309629289207806e-01, 8.073188415590737410e-01, 1.648847303785378748e-01, 5.396567766153198553e-01, 8.843570030779651647e-01, 9.959967402505812695e-01, 3.458123618274752675e-01, 9.274711734586096878e-02, 2.787770864186149278e-01, 1.538755316528016559e-01, 6.005125347198190244e-01, 9.523126386529952025e-01, 6.558606751208493346e-01, 8.098678065937807424e-02, 8.430485387607659087e-01, 7.389260701250406349e-01, 3.109888707269714558e-01, 1.885321972485846653e-01, 8.113459580127214965e-02, 2.669943870657366936e-01, 9.187907214797702560e-01, 8.885538453102742595e-01, 6.346652845027819789e-02, 8.698775287460142058e-01, 6.972076673629913346e-01, 7.221676530102730807e-01, 3.410375721173214414e-01, 7.053443543990064457e-01, 3.819333186926969215e-01, 1.783569403807335474e-01, 3.369853638268325846e-01, 8.163632984433419892e-01, 5.088644310264389681e-01, 5.551808025704763061e-01, 3.481710364538578295e-01, 4.398891958842747474e-02, 2.359988708857866657e-01, 5.022449079515247661e-01, 9.743584936751731318e-01, 9.564461201555777281e-01, 9.136802308857563393e-01, 4.919085870940951843e-01, 3.347408387030625238e-02, 8.740935521266253172e-01, 1.079637494402464482e-01, 7.610664735056694719e-01, 4.063236928314952201e-01, 9.714915905534197149e-01, 4.852436115222686919e-01, 4.603336859895074129e-01, 3.474923004464512966e-01, 6.256481193700836885e-01, 4.832056779653985390e-01, 7.876949687097313246e-01, 2.813184871485590599e-01, 3.644354296604494503e-01, 6.561534317057314825e-01, 9.084044095183537726e-01, 3.099214155974156643e-03, 2.318170488426946063e-01, 9.214405980310929056e-01, 9.067796625242170450e-01, 1.788522851434600214e-01, 4.798789236311282874e-02, 1.312021518436516307e-02, 3.721548938104162207e-01, 9.572081044057243471e-01, 7.092216109945650437e-01, 7.409540706682841149e-01, 6.956264237530737082e-01, 3.494457667346877461e-01, 5.678024441079608797e-01, 7.919057480826297013e-01, 7.412789481552164439e-01, 2.282233690456081654e-01, 6.884483315093740952e-02, 6.613494851572421229e-01, 6.544237986288209408e-01, 7.446671481602358256e-01, 6.022281661199412744e-02, 9.902809985980910723e-02, 2.846314662023268216e-01, 6.139727379201108670e-01, 6.487697358063197750e-02, 3.876953866205178900e-01, 6.729513053660313160e-02, 3.811265352428298003e-01, 5.487225142838055847e-01, 3.572972037797358946e-01, 3.925242183186637979e-01, 2.642987530506790139e-01, 6.760942351948999729e-01, 8.464222917265663559e-01, 1.585455788430047419e-01, 6.076637044852247760e-01, 2.305578754998391378e-02, 1.653498077390205545e-01, 8.306949894172328541e-01, 2.355363805038439284e-01, 9.006977971004123118e-01, 9.599354535615362005e-01, 7.780494309156006372e-01, 8.566004529555512059e-01, 7.463032827868995023e-01, 1.982029567128102965e-01, 5.360533149877643178e-01, 6.185997730340235812e-01, 4.444264027614803769e-01, 1.997953258900378101e-02, 7.928644915891910339e-01, 7.276213429956751577e-02, 3.179987374181547088e-01, 4.633596314079189704e-01, 8.209195961895596749e-01, 8.881764857915530609e-01, 5.667070685725298373e-01, 3.848516052110755870e-01, 8.051831855235477287e-01, 8.702528092311231367e-01, 8.407146854156688498e-01, 3.485661699424266735e-02, 3.722562140264635833e-01, 1.785142159653964333e-01, 7.885578320380359774e-02, 6.236333339709706491e-01, 3.291129013708317674e-01, 8.143032168911739088e-01, 9.112655552566475414e-01, 2.973441256003701572e-01, 5.890648081612729348e-01, 7.001904024016143424e-01, 3.317590576282897774e-01, 2.211571427318148597e-01, 8.024877086417125938e-01, 7.861905253135901273e-01, 8.069625160879867476e-01, 5.095520895828341557e-01, 4.082504194226053151e-01, 9.662474800128738606e-01, 5.597289854936568672e-03, 4.970198619864358291e-01, 3.795720540577188773e-01, 8.290858273182752924e-01, 6.692314056250269205e-01, 4.368227603023687178e-01, 8.565543318666939410e-01, 8.087263320068908967e-02, 3.354442800297159355e-01, 7.975395993082374790e-01, 8.507473949822081938e-01, 6.781031668912332888e-01, 2.072230754201669911e-01, 4.876983790567880894e-01, 2.689975787062086621e-01, 9.078368680768328369e-01, 2.281656370324334215e-01, 8.897596908273125438e-01, 8.813824814781503481e-01, 3.966932316557681415e-01, 4.226886051336860572e-01, 2.058659682773189281e-01, 5.233433016094518608e-01, 8.679815070424748980e-01, 2.759596463875663153e-01, 9.642193160564900278e-01, 3.101216267135186722e-01, 9.324620181664529106e-01, 2.568199669353963821e-01, 7.564490672473422883e-01, 4.299513909996538485e-02, 8.248161314631842211e-01, 2.919225793435506477e-01, 9.373880725941886594e-01, 2.564077809038096123e-01, 4.354181441782271067e-01, 5.013908863916710645e-01, 1.247376727381117739e-01, 6.030489030975371145e-01, 2.430805425487159999e-01, 3.003768143799602774e-01, 7.169721011034133062e-02, 5.257438071051893091e-01, 4.867668486254894122e-01, 5.850600697813572726e-01, 2.699998014536906243e-01, 8.950506894924313839e-01, 7.649841583930537814e-01, 8.049798802393197672e-01, 1.558382171944533712e-01, 1.998634193914826940e-01, 7.111977032556872080e-01, 5.755597025485501561e-01, 8.110476582728298744e-01, 7.098884471651712991e-01, 2.133306412233322569e-01, 3.917827378480058242e-01, 7.974257203157760765e-01, 8.176182013954480521e-02, 9.298072371066037345e-01, 9.105875026882782886e-02, 4.581288681068428348e-01, 2.823761185839122057e-01, 5.165014353681703085e-02, 8.513816532106901480e-01, 6.501683439463464831e-01, 4.592503954157376445e-01, 7.512833223217092460e-01, 2.872021879251690502e-01, 1.667527913845735787e-01, 8.664599974785462955e-01, 3.230997621776987572e-01, 7.828302763076204762e-01, 5.414839764175439774e-01, 9.151526168675803152e-01, 8.006781549602935977e-01, 5.108767124139962368e-02, 4.454912873950764296e-01, 4.913656188716931106e-01, 7.306247101475684680e-01, 3.744101774874086241e-01, 9.528789458170723314e-01, 4.487968280837266732e-01, 1.790386391812748834e-01, 1.341010570206072616e-01, 6.830897264222183241e-01, 1.073270892160722995e-01, 4.782591347543312388e-01, 2.870828835519572200e-02, 4.246134214783807148e-01, 6.332818127827861687e-01, 1.775960028508879462e-01, 8.772317890179061051e-01, 1.152517448694495572e-01, 4.783137802150835283e-01, 5.782425211829772538e-01, 6.220127926341486591e-01, 8.347344293062501919e-01, 3.917361010980819486e-02, 5.073979494350636665e-01, 8.237200352935934999e-01, 9.748748190789628676e-02, 9.841192722950409255e-01, 5.852287706648064969e-01, 3.932384776239000734e-01, 2.469641904830386925e-01, 7.496909080702622852e-01, 7.786353081692525269e-01, 2.982843272761789843e-01, 4.100859084914306174e-01, 9.716375123985816487e-01, 4.147196207217258013e-01, 4.833442825476765292e-01, 5.418369479499260954e-01, 2.128394289142487295e-01, 8.914097084776052560e-01, 4.177924750452498004e-01, 2.371019835096804806e-01, 9.305360455474692705e-01, 5.022894923326126637e-01, 9.638979017877497002e-01, 2.418596332764527401e-01, 6.690834837150752001e-01, 5.137319068017333068e-01, 9.546637358955555319e-01, 5.527527170347362739e-01, 4.060067497013859494e-01, 4.193814781348131904e-01, 3.115765964366887797e-01, 1.774001329217088363e-01, 6.945784648605627387e-01, 2.167026128118916262e-01, 5.659792853102179055e-01, 6.606536936811869820e-01, 2.904195938428300039e-02, 5.521741262260669858e-01, 3.424741230178439677e-01, 9.855029064542998318e-01, 2.690789722607689893e-01, 6.513965238813026470e-01, 2.406566749626315727e-01, 7.026079704875490828e-01, 6.972154992647715543e-01, 5.829481839496559320e-02, 3.143857205441334401e-01, 7.535069142456325419e-01, 9.029358687637080161e-01, 2.286436084313962225e-01, 3.830803129741328639e-01, 1.651463436194547385e-01, 3.025891484667475595e-01, 6.945503885101990127e-01, 5.040466236050133997e-01, 8.512796678212800616e-01, 4.221347515575647052e-02, 8.975441406642097331e-01, 5.320423063391308549e-01, 3.775122952166941326e-02, 6.966839431532186877e-01, 9.737770619967316410e-01, 2.835106722996453277e-01, 5.235065422841950200e-01, 6.223458551825601370e-01, 5.379441563027799189e-01, 5.927057549080283483e-01, 1.960360606230144298e-01, 2.178692211136792900e-01, 1.516228212039384127e-01, 2.496491100163652221e-01, 9.257882245486133144e-01, 4.740203443610445655e-01, 1.189168618422615231e-01, 7.095467879198856798e-01, 1.875351056190281973e-01, 5.636283449437051729e-01, 1.243444058278983244e-01, 8.913550863127389645e-01, 2.421935354752551700e-02, 5.321745368479641192e-02, 2.550579906025216559e-01, 5.506971541968606054e-01, 2.375413278778444326e-01, 8.872081350781042819e-02, 3.020970316893004104e-01, 4.685422652281480416e-02, 8.915441954746269326e-01, 2.544964450614164431e-01, 7.287433543619115106e-01, 5.397942607138012105e-01, 4.713521126607566614e-01, 3.979743600510681767e-01, 4.188018292952663812e-01, 4.217500559996053000e-01, 4.729844002516723767e-01, 1.162367971018053447e-01, 2.211842631568754491e-01, 3.584263949960033169e-01, 3.270681162351356530e-01, 1.443525432181055335e-01, 8.459447553312171575e-01, 6.635880816400696602e-01, 9.323758935514510071e-01, 5.906650102821029424e-01, 4.029598936112884222e-01, 7.807373445582393989e-01, 9.768623181056452776e-01, 2.273970899592570871e-01, 6.298690408539754371e-01, 7.502112379823960842e-02, 6.508130507333802217e-02, 7.910577003535446128e-01, 4.684921523107470898e-01, 2.093347069629105939e-01, 1.233382810906912264e-01, 1.396382687824200830e-01, 3.602036860169994248e-01, 4.283637483690631020e-01, 6.156667168018708364e-02, 9.044208847562720255e-01, 1.079063230466364987e-01, 7.092637784215765073e-01, 8.905579592578880543e-01, 5.188132210748134243e-01, 1.305709505634021217e-01, 6.471085376402864187e-01, 8.148792358749634701e-01, 8.137710683193783989e-01, 7.969590686030747495e-01, 8.265126560899651587e-01, 9.879384749348560923e-01, 7.811108321985109626e-01, 1.344046359456861905e-01, 6.930109815811317242e-01, 5.886479361555124745e-01, 2.590551034957209176e-01, 4.422214372438928315e-02, 8.362888664179467524e-01, 4.393566964419334808e-02, 3.859068050638683745e-01, 7.370926806313026214e-01, 1.501312276843504989e-01, 9.314302650392496385e-01, 8.375573442888818443e-01, 1.057630471660082200e-01, 8.855066273404534893e-01, 3.523131768717474577e-01, 2.715349916137626413e-02, 2.106244884942802820e-01, 3.491582556984598740e-01, 9.867830925106861883e-01, 2.996901391855375137e-03, 5.586762924407762121e-01, 6.875330540279703806e-01, 6.440109108507349744e-02, 3.093734207582614082e-01, 3.935686585693587425e-01, 4.798874246219548279e-01, 2.179463303576200522e-02, 5.269159004010672831e-01, 8.052804812929460487e-01, 3.790779490382092387e-01, 1.533018251335027948e-01, 4.523820254388751794e-01, 8.391343760460849843e-01, 9.479301529135722992e-01, 2.356767253929353545e-01, 8.904969944003249260e-01, 3.305457139118678223e-01, 6.164610089413339322e-01, 1.286111975500689453e-01, 5.903442090151401755e-01, 9.347026065225561009e-01, 2.225794042282123464e-01, 7.473049179471521475e-01, 1.111912464070373696e-01, 3.099023701610580939e-01, 8.221339573542976176e-01, 8.918365909693953819e-01, 3.007574453815599624e-01, 5.322291093633123582e-01, 3.853874195132653835e-01, 5.293369625767755382e-01, 4.287943016326067891e-01, 2.479072547310759711e-01, 8.795881247465010544e-01, 1.327489879898650360e-01, 3.651238322089686017e-01, 8.911286073944049146e-01, 1.780798295593196967e-01, 3.598147058537519150e-01, 8.267801721787972902e-01, 6.198289712619089453e-01, 4.209177950110526978e-01, 7.204605933536087914e-01, 8.375572737908655307e-01, 5.339851780632122180e-01, 6.872835099866456687e-01, 4.591156081714627413e-01, 2.482957486244909417e-01, 1.815873720881067965e-01, 7.933051821218922717e-01, 7.939943908092725877e-01, 2.075843354560186205e-01, 4.726821191862078941e-01, 6.412629920055243904e-01, 1.962959990758572359e-01, 3.704397617775276874e-01, 4.876947546572792946e-01, 8.187256914338278957e-01, 5.273797165020752686e-01, 5.587485489878842859e-01, 5.517873352004279974e-01, 8.106707656757748959e-01, 9.249998277374513744e-01, 7.816399623934162655e-01, 4.442741163288478901e-01, 5.122072530492199904e-01, 4.103115953373087099e-01, 2.853408366611827618e-01, 5.683132478417224354e-01, 3.254260176771476831e-01, 9.238285144212780020e-01, 4.505583545038481796e-01, 4.396226552201841220e-01, 9.245284756567970774e-01, 5.669637188717699949e-01, 6.625349836365085343e-02, 1.940453633175492354e-01, 8.326752070908135517e-01, 3.926989207820558714e-01, 3.599248619875752842e-01, 3.345233726585243872e-01, 7.687849757920105498e-01, 5.142892503658375025e-01, 7.866935868239276208e-02, 9.640299375043370755e-01, 5.862919329933826695e-01, 2.823932949890726740e-01, 3.473021947280639787e-02, 2.698626637709675702e-01, 1.193596259201167714e-02, 1.039957634101024708e-01, 5.918122958477128881e-02, 9.153328109285489012e-01, 6.127557345113939791e-01, 3.360769042397899753e-01, 2.880366354080751701e-01, 2.694669674973775454e-03, 4.544525344987153659e-01, 9.633695887697436566e-01, 5.131269146976257245e-01, 6.239062522868400462e-01, 3.405843045574323269e-01, 3.036054243624585758e-01, 9.566739016940214446e-01, 3.198631706788346296e-01, 4.535941916581169298e-01, 5.202205891538165261e-01, 1.761009739463048618e-01, 4.414243704159104831e-01, 1.099479661786389867e-01, 7.329191219045437800e-01, 9.357415824790416004e-01, 1.465033302030455953e-01, 8.975266935571288851e-01, 1.294358361027368731e-01, 8.442881710645339099e-01, 5.266281492868443159e-01, 5.785873696395614774e-01, 9.354709964785827836e-01, 8.479643415637942994e-01, 1.550947409709166058e-01, 9.193266194071558761e-01, 2.258403475574706498e-02, 3.212448933168214615e-02, 9.548767482102892279e-01, 8.041410572134595203e-01, 1.006178801494253400e-01, 1.722034800086051642e-01, 9.324844167063470746e-01, 4.132362958314353962e-01, 6.938852454918573720e-01, 2.387425778002545407e-01, 1.865651533728704681e-01, 2.332046159052357515e-01, 5.214356704478571025e-01, 5.790819377057899731e-01, 4.520770895971752412e-01, 3.203694537943915233e-01, 2.359681442605564561e-01, 1.600388060414838776e-01, 3.482303869015248576e-01, 6.345516424187757076e-01, 7.158965356842005301e-01, 1.005914324946797708e-02, 2.769109422240981222e-01, 7.806320416769797488e-01, 3.937310426002345043e-01, 8.239447568174873560e-01, 9.059147199959765029e-01, 1.402076839001887287e-01, 7.876927704234188976e-01, 4.821120956210364072e-01, 4.798738494448763769e-01, 5.859023436058612422e-01, 6.019354770774885122e-01, 2.501702474262927911e-01, 7.964435212753715465e-01, 2.179497078121597486e-01, 2.637243390277797805e-02, 7.080212215740987469e-01, 6.042454038008329142e-01, 2.171507863793223636e-01, 3.025837768458629617e-01, 3.154266002564578009e-01, 3.562510103403714878e-01, 7.606408555094905655e-01, 5.605032476610837255e-01, 7.918930414392995054e-01, 1.753011581343022485e-01, 7.768991765636641400e-01, 6.972214937870272466e-01, 6.594958948392203313e-01, 2.976437316401868149e-01, 5.816751435569481599e-01, 5.255845220697827891e-01, 6.948174730579389502e-01, 1.272393740723835320e-01, 7.077746736204906242e-01, 7.153109358296022569e-01, 4.550068557716465678e-01, 1.722556231447019692e-01, 3.694969189457874559e-01, 1.856049889931177810e-01, 8.884157354842925347e-01, 2.044998898147752930e-01, 8.801214272819251061e-01, 5.073799161761224363e-01, 5.055452084021380132e-01, 5.101431209913023235e-01, 7.462571924156328196e-01, 1.457383577677369424e-01, 6.103921762009544283e-01, 8.618561472440202653e-01, 8.194489333302855671e-01, 6.007662989815151233e-01, 2.511547975435078905e-01, 8.190159721648020419e-01, 4.074396465690532376e-01, 5.422114657875457544e-01, 5.678191411771060793e-01, 2.746369502906566007e-01, 9.073903228551386535e-01, 3.984614399451361089e-02, 8.843892812027833727e-01, 3.733098320921388047e-01, 6.226656296086806597e-01, 6.011164388670290348e-01, 5.002749321684250156e-02, 5.928828084952958433e-01, 8.253921837952945539e-01, 7.501041382098194710e-01, 7.597986726513441536e-01, 7.744530145581048908e-01, 3.076846271183814596e-01, 3.527472597916885833e-01, 5.757880514512795367e-01, 4.682471015735086839e-01, 5.489606329174594457e-01, 8.168075307985123157e-01, 5.806274515084151044e-01, 2.359104328278789631e-02, 1.905470934982163647e-02, 7.793644234807682591e-02, 6.401850918247075084e-01, 3.782059144957052310e-01, 7.810429469927703261e-01, 5.341421662982943630e-01, 7.724395839444911926e-01, 1.048174134594837131e-01, 8.645574037292182989e-01, 5.944658698555889131e-01, 3.430932710435177779e-01, 2.351755702643641976e-01, 5.150914402050075225e-01, 6.618584691221320870e-01, 1.897162140595935742e-01, 5.068712477529976335e-01, 4.366749215083541857e-01, 3.178762945840051674e-02, 9.650009167307556091e-01, 4.341539465454755109e-01, 6.278083814045726241e-01, 8.296969610698742281e-01, 7.385851874579725251e-01, 3.334822193080801411e-01, 1.320610048375386869e-02, 6.869508243439881312e-01, 4.996836800914469801e-01, 8.646376851280437315e-01, 8.033820156571871429e-01, 7.304611852584472209e-02, 1.457013854243792705e-01, 6.804239179619228639e-02, 2.016297370224887364e-01, 3.165957544190701189e-01, 4.583461607282182104e-01, 7.769837065022107137e-01, 7.381292436416672098e-01, 7.895950518182770494e-01, 5.447004209747566827e-01, 8.633013364128107048e-01, 5.054331111686025668e-01, 3.880228882253635159e-01, 9.212244521936863162e-01, 5.204160312273099775e-02, 9.730456687254254167e-01, 8.692260166332664850e-01, 3.091097737824267666e-01, 9.850978805457292209e-01, 4.788435251522903391e-01, 1.894957987430674617e-01, 7.156650211996874456e-01, 2.839696261112655273e-01, 9.944896644807286190e-01, 3.061561361118638191e-01, 3.023079811698347052e-01, 8.959840889831559574e-01, 8.407327175235542738e-01, 3.333098012355955042e-01, 1.410482207106552588e-01, 9.789267051887824422e-01, 9.735043859712569358e-02, 8.648323656780831925e-01, 9.124350240976180082e-01, 7.913079073236944927e-01, 3.076223878223245754e-03, 7.634861510725038380e-01, 3.527581808097053906e-01, 4.174224804548956058e-01, 6.792556435166330342e-01, 1.904734445812025501e-01, 9.173296477723834330e-02, 2.403429130686920712e-01, 2.530245386967024945e-01, 8.096501750673699149e-01, 4.943039516992846494e-01, 2.615764240477042590e-01, 8.185880626371618840e-01, 8.078013929301556262e-01, 1.555031648328120686e-01, 1.275828088788003301e-01, 9.185375176709800193e-01, 2.449200250868523998e-01, 4.239417021190511337e-01, 2.828583352959396779e-01, 9.064169638762878956e-01, 1.025174985892236962e-01, 1.751721109238964513e-01, 7.004677421789881064e-01, 2.941988976811570344e-01, 6.225903028852552284e-02, 9.751188513742976571e-01, 8.439611418958724576e-01, 7.179642722385899400e-01, 9.707969169933473585e-01, 9.586721398112791892e-01, 7.631483111274051101e-01, 2.356784194620430151e-01, 2.520850837658716870e-02, 8.369861783457381854e-01, 4.523035574927271041e-01, 8.815062479393677153e-01, 8.990125821108367887e-01, 6.058552810847359638e-01, 5.176672634080394797e-01, 3.255976415357043074e-01, 4.410393325426814615e-01, 3.801628253318566908e-01, 5.184561855999857416e-01, 1.996396987452095095e-01, 5.317264815679662027e-01, 6.861447668070781436e-01, 7.945211449034562667e-01, 4.477212806186008920e-01, 5.098508653688794690e-01, 8.219328002375245745e-01, 4.515504131850482938e-01, 1.270955149797518835e-01, 5.859171900683508571e-01, 3.037409500565704246e-01, 4.192654515080983524e-01, 5.249319123979663271e-01, 4.723761969433521446e-01, 9.470711674829911386e-01, 3.003959551029108943e-01, 5.723232638383267679e-01, 7.181132207540883439e-01, 5.454361160060902103e-01, 6.385070145554789800e-01, 7.159131747651885647e-01, 5.297184795191601792e-01, 2.378165077974381258e-01, 9.799792275420553533e-01, 8.475854933468831426e-03, 9.142004753689351171e-01, 8.044915500255800378e-01, 3.445499344084292925e-01, 8.214071583486576289e-01, 2.645938740789221533e-01, 6.625201201506775162e-01, 5.031098240303264468e-01, 1.796478170708319388e-01, 8.096949344259507519e-02, 2.250466136913998327e-01, 5.220589843319186629e-01, 4.378425113635148747e-01, 1.959323786537946477e-01, 3.694774452915988161e-01, 4.808732354719535418e-01, 3.329838282541767724e-01, 6.342166190027265227e-01, 7.517462656890102624e-01, 6.024086035277023132e-01, 4.286770013120575484e-01, 3.605964817310423065e-01, 8.606147784733871875e-01, 7.863471187442793164e-01, 5.633494975996238274e-01, 4.007139667280200657e-01, 1.508364755182860228e-01, 2.459794507568455468e-01, 7.797046259942558288e-01, 3.716061557226946754e-01, 3.636557355733369690e-01, 8.313747040947763178e-01, 4.751505759627845937e-01, 5.937638764385917423e-01, 6.075445002307890974e-01, 2.502844697980756428e-02, 7.647513087944268761e-01, 7.778747106782581966e-01, 3.864287301380459616e-01, 2.824858983640372578e-01, 7.793704606464180173e-01, 4.705065286417159376e-01, 7.189500098200161116e-01, 9.079879395884409288e-01, 4.674131556156105871e-01, 7.198940170255152537e-01, 6.149429874834595466e-01, 4.874235324505850619e-01, 5.475337875595372994e-01, 7.333310950884339707e-01, 4.095563912776954973e-01, 5.016763289733573439e-01, 5.434231235846109787e-01, 3.686547656058220546e-01, 5.739013703880407880e-01, 8.189148986130063701e-01, 9.496901503745301953e-01, 8.847294747893873490e-01, 9.370981986491092597e-01, 6.766238686438584837e-01, 5.407693622956373236e-01, 6.429446797880530307e-01, 4.689723993570779625e-01, 3.609276807743369009e-01, 6.685648662305369028e-01, 4.676607228191109050e-02, 1.830479869556131400e-01, 3.094695734394283249e-01, 8.458862353405637302e-01, 3.873438085164819800e-01, 4.108957749387527891e-01, 3.430642592449844042e-01, 9.871711626473154144e-01, 3.662632043281280891e-01, 6.845980694228611663e-01, 7.590882441995384644e-01, 5.344454105103864094e-01, 4.947891286051163406e-02, 7.156417589100910748e-01, 7.352323796954307600e-01, 3.263185263452225149e-01, 3.241887510929538085e-01, 5.451235352137853152e-01, 8.376667931684885771e-01, 4.907599992287713375e-01, 5.394525969028572954e-01, 3.439601827717709281e-01, 9.631808986540481010e-01, 1.170185566938829469e-01, 4.966545300084191372e-01, 5.332553515964382207e-01, 1.280738486722753366e-01, 7.443589606065492692e-01, 5.203350330434666215e-01, 6.247668711353708826e-01, 3.338794483780143652e-01, 9.286288196807535034e-01, 4.814637391420838464e-01, 1.187964200715064811e-01, 5.133566530340487599e-01, 5.761255066147338288e-01, 2.353987101385578429e-01, 8.778844863802287568e-01, 5.987760555218490932e-01, 1.517076799261649345e-01, 9.151307274639222111e-01, 1.508916769882215070e-01, 2.652760804232338621e-01, 5.918585343707063462e-01, 2.380856288746380778e-01, 4.162510494980700138e-01, 4.989025016219268971e-01, 9.878184794680170411e-01, 1.942050045331506491e-01, 9.683257136373737417e-01, 7.196625036252979335e-01, 2.155823309666581034e-01, 8.138104578255253019e-01, 5.843122426661824242e-01, 9.872935149497851226e-01, 6.624887573983431199e-01, 4.245901133527507643e-02, 5.588637235071473031e-01, 2.209568890464828073e-01, 5.800119936313736790e-01, 6.468570202099213073e-01, 7.107180920247587741e-01, 4.294073900641739439e-01, 7.827886385784551537e-01, 1.044597161047507855e-01, 4.385819366278043696e-01, 3.192642574326687299e-02, 8.944955808605761227e-01, 5.274748409610088284e-01, 7.052061307749146746e-01, 2.515983079559010460e-01, 3.182360838548108362e-01, 1.086791046143905509e-01, 1.921660686323766465e-01, 4.800693248174843220e-01, 2.130402254184767252e-01, 4.435971417761975788e-01, 8.245725845675860866e-01, 6.843824126923675477e-01, 3.340692254132189842e-01, 3.043747390804296682e-01, 1.287724201052505534e-02, 9.742172776848442295e-01, 5.982482096966724727e-01, 7.905616058208043695e-01, 3.458424660665994077e-01, 9.752368584817632247e-01, 6.861687516690899713e-01, 1.203282848952501143e-02, 6.759429131909049371e-01, 5.013908161328404708e-03, 7.298715379653910630e-03, 9.161291312591105518e-01, 5.825760123680256281e-02, 5.996617288367538379e-01, 5.446644619245701868e-01, 5.131479979398493457e-02, 5.162605380433461510e-01, 9.612680397978193847e-01, 7.160502456654880277e-01, 6.414649129926062177e-01, 5.974093158743837284e-01, 2.621763837303611386e-02, 6.984137412216416818e-01, 5.142242310546705220e-01, 2.989055681337414727e-01, 1.089876960178195325e-01, 3.487560885799781407e-01, 5.327883679614012769e-01, 6.274509782946120495e-01, 1.672235705356558688e-01, 6.678649152472853068e-01, 7.059252549429534396e-01, 4.896328543731810756e-02, 4.615881487374028369e-01, 7.166284343860138684e-01, 5.916441197218051673e-02, 4.960502315624767955e-01, 7.241370329361899172e-01, 6.460269473245527916e-02, 8.930366743718850531e-01, 2.095938816068685095e-01, 2.325696343145850498e-01, 7.616065265314929666e-01, 8.943617329121293924e-01, 9.509526419942009312e-01, 1.456040461797551977e-01, 4.970167211572625865e-01, 9.874255614175663220e-01, 7.748662687211380629e-01, 8.971310061696927685e-01, 6.485589141896109799e-01, 2.236324409529316659e-01, 4.740596469338180519e-02, 8.997813922529022124e-01, 4.656860643786129850e-01, 8.121737472192868124e-01, 7.981836484226347839e-01, 9.409769767873286117e-01, 9.070837344735022123e-01, 3.125476438402944868e-01, 9.265962644740788345e-01, 1.442237906389032820e-01, 7.411794224018461996e-01, 3.245048824839307233e-01, 3.791039582975951339e-01, 2.390749356994333885e-01, 5.623858920247556403e-01, 2.099407346278086006e-01, 7.575835223336307989e-01, 5.114905862712009199e-01, 9.094675203949054154e-01, 6.154875150345212598e-01, 9.221969548950335049e-01, 4.022827215371142101e-02, 7.646501029272498307e-02, 8.386897139074482865e-01, 5.086374072339122643e-01, 7.103876070201069481e-01, 3.263881432789559334e-01, 7.782471756082377512e-01, 7.929674777631136040e-01, 6.597690182319122520e-01, 5.625082599910474768e-02, 9.141432735420005340e-01, 9.230221604515695955e-01, 3.263177789711456112e-01, 9.039150154976740570e-01, 2.334552019357261643e-01, 1.356057494200297968e-02, 5.932930047947476693e-01, 2.618807595507108843e-01, 1.762532146963712021e-01, 5.058609947607402013e-01, 1.573393783794979073e-01, 7.798295449871163187e-01, 6.477364192176685576e-01, 1.443184729347639916e-01, 4.162538831543211582e-01, 4.576449621458141825e-01, 6.411222885134248983e-01, 9.444943107802361570e-01, 3.031879357927374508e-01, 7.443401664574500476e-02, 9.322098029492660309e-01, 7.596516077571993097e-01, 5.552599771180404264e-01, 8.986860624191156388e-01, 4.609620806947828386e-02, 9.578123596243858229e-01, 3.703062122189029193e-01, 5.552562510191427769e-02, 3.709237849725565694e-01, 3.880300045868451120e-02, 7.299817081274395658e-02, 1.479665439728208021e-01, 6.312825649130026084e-01, 2.916996709191571058e-01, 5.980724203175784570e-01, 9.813328946915972351e-01, 9.573183484798529763e-01, 7.064461408467994641e-01, 2.287520319112944789e-01, 1.521570469060610220e-01, 9.785185854515969783e-01, 3.097881142438941304e-01, 6.976457330155430014e-01, 1.171383819362761119e-01, 5.646391211776369268e-01, 4.463074249649933573e-02, 8.660098089350730666e-01, 9.253168260187776273e-01, 2.565125601842317415e-01, 5.216023150831429200e-01, 6.763241897369056677e-01, 2.896592670563768457e-01, 7.700999220969544368e-01, 8.248253930747014850e-01, 5.747502499277240551e-01, 3.037610010847753284e-01, 9.652901607500006254e-01, 2.257932673603903206e-02, 9.160803836382098719e-01, 5.282164498757448978e-01, 2.974650484560305008e-01, 8.237017976959504217e-01, 6.855789150361946138e-01, 9.501078383773339242e-01, 4.052176279487211819e-01, 2.003676239587965924e-01, 9.297353142386124980e-02, 1.461335874563736981e-01, 4.502611513529585635e-02, 9.209120580259823330e-02, 2.108673832458126951e-01, 8.399649442100244334e-01, 8.937773216313334990e-01, 4.391246378406705730e-01, 4.295573264680214720e-01, 7.395232274557768104e-01, 5.093510398335054923e-01, 2.070309798445817487e-02, 2.136852888087376334e-01, 9.845917221349154147e-01, 3.292746559097382564e-01, 2.454962573575781570e-01, 7.062809607854553251e-01, 6.021764844872287137e-01, 9.993944364338689379e-01, 6.109694875112097190e-01, 8.434709342361325080e-01, 2.679814018613089766e-01, 6.177666673192716562e-01, 1.920725884852107213e-01, 3.520516369945420054e-01, 9.299531548134017944e-01, 6.010261754582902904e-01, 4.556785210211200532e-01, 2.972409480751114774e-02, 2.005576799546627265e-01, 3.417931279803799183e-01, 7.627855367750030480e-01, 9.125179393429022623e-01, 2.738862113731603265e-01, 1.374741933634497093e-01, 5.873124483666569695e-02, 4.353697472698531690e-01, 7.876672759472279628e-01, 5.056209618215622426e-01, 9.222644034366420107e-02, 2.927892328270123024e-01, 4.363868897691179916e-01, 3.597168954380852712e-01, 6.610544161287281728e-01, 9.828412633868661707e-01, 6.798821067065083934e-01, 6.449989274246318294e-01, 4.763481732645415967e-01, 3.142547947745768511e-01, 9.281052781547705077e-01, 5.276537349316917647e-01, 8.590022375979691205e-01, 2.454612367274296159e-01, 4.163861447408911398e-01, 4.933415965075542697e-01, 6.800831492713493853e-01, 3.786678052298150104e-02, 2.909467759940161380e-01, 6.634651629716139531e-01, 8.330906301770745204e-01, 4.131287926738213059e-03, 4.801532103812299335e-01, 9.661783934325183232e-01, 7.557095468111915126e-01, 9.299764315308356455e-01, 2.339290577603952981e-01, 4.843324034749917073e-02, 7.634277312498219947e-01, 5.489531467598078862e-01, 1.671132511765839879e-01, 3.798253962602756717e-01, 7.545961276525241235e-02, 8.483749767059572955e-01, 4.516827695705901147e-01, 5.469585775975542852e-01, 8.975628580369955367e-01, 7.870307605508708448e-01, 8.154179693220400260e-01, 7.911091052147907199e-01, 6.062816672250086469e-01, 1.801394120142049693e-01, 8.821347452201483419e-02, 9.263888711441010670e-01, 7.930064597931862913e-01, 3.834541108448583091e-01, 5.212689539255559446e-01, 6.138072777254683920e-01, 6.202381058126303914e-01, 5.969556620695015692e-01, 8.515283388768390971e-01, 7.098742146735950165e-01, 3.695632442404592211e-01, 1.856262341614201561e-01, 3.236183625027450605e-01, 1.932446218956759276e-01, 2.191946687657389259e-01, 7.662141521744424422e-01, 3.058058966591627459e-01, 2.274127215128185497e-01, 8.630244063917593689e-01, 5.657143992382981379e-01, 5.365740976618280644e-01, 4.061730072294110205e-01, 4.814793660847959123e-01, 6.107620063270818855e-01, 8.436986581131304952e-01, 8.202708364711307487e-01, 6.615655756493340478e-01, 5.103677252387530672e-01, 7.294669860477382972e-01, 1.674802054740651136e-02, 1.914101087948653357e-01, 9.324423517363651381e-01, 8.186601714988631651e-01, 6.728993221613689402e-01, 3.191487865987753247e-01, 7.236766476830548411e-01, 6.700472093031287768e-01, 9.973236453341089991e-01, 6.007405256524077641e-01, 9.367164957555975668e-01, 6.541043331683473738e-01, 9.670210209583093297e-01, 7.771167809371475055e-02, 3.343104218606764433e-01, 9.792353648660472309e-01, 5.510160499760861086e-01, 3.915082035969391638e-01, 4.353538974161348940e-01, 7.921078218639247825e-02, 3.893069088260074917e-01, 2.418543045208679798e-01, 1.231403922674303153e-01, 7.647182860195653742e-01, 8.308036424275654364e-01, 8.846527103517991542e-01, 2.262416473683080964e-01, 7.644969510304278071e-01, 2.985619187459190305e-01, 6.824995525297237187e-01, 7.575466870467584268e-01, 4.230013429183872020e-01, 9.356360944048396355e-01, 1.809860350259837325e-01, 9.885556271784994298e-01, 6.366257229159300035e-02, 5.042027922777875260e-02, 4.251465978826571845e-01, 6.185276822083785042e-01, 1.331310798958539876e-01, 2.012097652221907229e-02, 2.929831636089955671e-01, 3.037547724957248008e-01, 3.083770554289103072e-01, 5.119421936366356229e-01, 8.538295218262105246e-01, 6.262612977988392116e-01, 3.405836415708541343e-01, 5.722780963218657702e-01, 1.832546631315074281e-01, 7.541049901161656077e-01, 3.443359467028225263e-01, 6.722829904378198052e-01, 9.072207268211274211e-02, 1.965251291832893210e-01, 2.856669416168857722e-01, 1.484054262078879638e-01, 3.617789382729738601e-01, 7.714828245629415382e-02, 1.121235394400533075e-01, 5.856619238651812331e-01, 8.966452196879517444e-01, 7.317138117695362043e-01, 3.256554679330100899e-02, 6.026935375354832702e-01, 5.943881063402727261e-01, 4.815002949720877945e-01, 1.219844694597543161e-01, 7.769037312631607017e-01, 8.123163914890941806e-01, 2.544225288279829411e-01, 3.421253664548948303e-01, 5.131196711162057111e-01, 3.160789372091262761e-01, 3.939237244129224769e-02, 6.123848174930104360e-01, 4.360321309252306876e-01, 3.238161371120772403e-01, 1.099162015698918055e-01, 8.747184275030895906e-01, 7.600705550430421065e-01, 6.212802127542615960e-01, 9.131341818602023430e-01, 4.234180893722109817e-01, 5.757857007100010138e-01, 7.316197145658137613e-01, 4.965788018033601148e-01, 8.308979646170459032e-01, 1.853150781117428869e-01, 1.284581773455650278e-01, 3.629674668893376754e-01, 6.159026627802902665e-01, 6.954561597871729006e-01, 7.432526333738299629e-01, 3.560199293983358215e-01, 7.556636293833838280e-01, 8.915431259924855301e-01, 3.786499003776728350e-02, 7.595023495727412643e-02, 1.423899665792870695e-01, 7.520128701459000142e-01, 6.149733148231558699e-01, 5.546389534992884895e-01, 5.050731674193943421e-01, 9.479298739436592403e-01, 9.200932373332665337e-01, 5.163299850870558538e-01, 7.719097775550465279e-01, 6.526114582896054284e-01, 3.394757996452993365e-02, 2.445689931847981960e-02, 6.229795470945769242e-01, 8.386876606664449563e-01, 7.937982848708249328e-01, 8.094225996890744290e-02, 8.533747641881493928e-01, 4.367998574762341768e-01, 7.190165956316912910e-01, 8.999603952223845793e-01, 3.120532011325818922e-01, 5.522072432640317413e-02, 4.848248749083227671e-01, 3.406479790414038145e-01, 6.453467722780140692e-01, 2.352889292839437096e-01, 7.057474593358046278e-01, 3.354326344037387164e-01, 6.583458479662174234e-02, 2.170137587833544934e-01, 3.962259418346638640e-01, 7.835031892357715577e-01, 7.752248487406733224e-01, 4.815897463467909145e-01, 2.092665137779517737e-01, 7.564218152072665902e-01, 4.948670421910021933e-01, 4.538976082327280115e-01, 4.207872677833330299e-01, 7.996639737630001354e-01, 4.498564804878234513e-01, 1.508486288922373519e-01, 1.036710830371846692e-01, 2.753438451851740187e-01, 9.110892975912932013e-01, 3.719987136470643829e-01, 5.214226345113983641e-01, 1.652662158908957679e-01, 4.533320743124949481e-01, 5.334529831684037271e-01, 7.073394325969346585e-01, 4.556118879549415079e-01, 8.679681773551654045e-01, 7.641208603846603165e-01, 7.396287940734718180e-01, 7.444091898396818507e-01, 2.074656012195448818e-01, 4.188803224158056393e-01, 6.459342099053002606e-01, 4.973524501666032882e-01, 4.221659386383278673e-02, 1.405968914420871740e-01, 2.980068072479455377e-01, 7.583643735046714518e-01, 6.553769852705741972e-01, 3.302992672852136935e-01, 5.988869273392588566e-01, 8.402684813164050803e-01, 8.359938829911366387e-01, 9.308532423774745768e-01, 9.061184489957058164e-01, 3.077310399958686493e-01, 8.854544116124032360e-01, 1.051631492198384921e-01, 6.708203641510960269e-01, 7.443865120414957515e-01, 9.371631459655905827e-01, 4.815219723720881029e-01, 3.598204609667342568e-01, 7.991492678700548025e-01, 9.360301716026308005e-01, 9.444993801764804964e-01, 6.846861920508190424e-01, 4.920709728324719201e-01, 8.705014369083498293e-02, 2.404133023640705469e-01, 3.262339269996490931e-01, 8.062190280898285932e-01, 2.821800134738109422e-01, 5.598696865945589352e-01, 6.321625484352376700e-01, 2.822621593034609355e-01, 7.778417869181741828e-01, 9.693361348870543903e-01, 1.553134021521129782e-01, 5.788932170415739265e-01, 2.949192730238360816e-01, 8.709085810550220019e-01, 5.525067784875572485e-01, 7.800093519911464046e-01, 3.416025713108083450e-01, 4.431606565263642161e-01, 4.065445407457344285e-01, 4.215990217079675362e-01, 3.205746818699172218e-01, 4.950005918762054868e-01, 4.640265111716058710e-01, 6.468898096830155708e-01, 2.504163060871544833e-01, 8.048989227101351895e-01, 2.628023916311758024e-01, 7.229728293321361354e-01, 3.973883120304905758e-01, 2.340678191993311730e-01, 5.060024610914736209e-01, 3.665492515931570994e-01, 7.084539748251423852e-01, 7.924730479970300001e-01, 3.182120220135294941e-01, 2.469887446868850311e-01, 7.596697417328532875e-01, 2.101716915335639368e-01, 1.731919980026867256e-01, 9.640593629101913420e-01, 8.254423512972571819e-01, 3.497183582870087570e-01, 3.260145039706111580e-01, 9.322716454903935412e-01, 5.861149772193742225e-01, 2.881335178530536889e-01, 3.736941416207161248e-01, 1.114631277025802530e-01, 1.395851131297446424e-01, 4.522353243146599033e-01, 2.564428592430578746e-01, 2.318871464264268545e-01, 9.246937801149796021e-01, 3.849144897353596328e-01, 1.574823712977474199e-01, 2.610606788324504879e-01, 5.513370147976073832e-02, 1.401342557755146656e-01, 2.927867959744038240e-01, 7.624065499071372987e-01, 8.641776243716010608e-01, 3.578962432530434223e-01, 4.899485464406558299e-01, 8.608768573896623533e-01, 3.130056177971383136e-01, 9.912442670105509057e-01, 1.061526794089506093e-01, 7.398170491486135703e-01, 3.099841410613108361e-01, 3.876973417846776293e-01, 4.453023413156956267e-02, 7.531163862185374924e-02, 7.302821472145702986e-01, 9.639533546294355437e-01, 2.436095589205752865e-01, 4.432456496047187944e-02, 5.812022230654422250e-01, 1.741013795673629350e-01, 4.876141267062741314e-01, 6.111850800590300503e-01, 7.209574122895042736e-01, 3.264576017514050355e-01, 5.797736189090246794e-01, 1.885009276866982109e-01, 4.922410560611343855e-01, 7.631725330733135637e-01, 2.647251855855125013e-01, 4.214144293229168392e-01, 1.201927744806793180e-01, 1.641059309070786176e-01, 1.692977442919580688e-01, 6.819184615679122485e-01, 2.806781453310889796e-01, 6.237848336690211548e-01, 7.532567381082794222e-01, 6.939979622140396431e-01, 7.372242658354928591e-02, 9.252554352949663441e-01, 6.315461295596856983e-01, 1.701835010351331057e-01, 5.954127493363181589e-01, 8.060833916925849163e-01, 8.477932155649871016e-01, 1.602191876788583991e-01, 9.295246282078130085e-01, 9.490514140864046710e-02, 1.282480124406711053e-01, 1.692421850889179735e-01, 4.836914608696321061e-01, 2.155487545627647328e-01, 9.265598449043762619e-01, 9.401871066130261800e-01, 9.584393932764756485e-01, 2.279536631307780004e-01, 6.721491564088838411e-01, 4.010270270098166279e-01, 8.105297625809214646e-01, 7.180104058306620018e-01, 8.796442621869041689e-01, 8.914345857449909039e-01, 8.484154003947113054e-01, 8.264088060048275786e-01, 1.349333430037210901e-01, 1.229490188637446108e-01, 7.621526765555153987e-03, 2.505293995822402420e-01, 8.809557432799005605e-01, 8.464339036373120795e-01, 7.231947556578890435e-01, 5.535648074486748671e-01, 1.632148986400236979e-01, 8.354598238445943847e-01, 1.891957467332995857e-01, 9.265927275151022435e-01, 3.371441460148967839e-01, 8.370383341428652146e-01, 3.959165269491622327e-03, 2.125538185975303640e-01, 1.083585603132874303e-01, 1.857199636018221633e-01, 8.928123459744539137e-01, 3.090590828288178327e-01, 5.217914292475428484e-01, 2.274534664057549851e-02, 4.577222223430950088e-01, 5.928083180296687960e-02, 3.464334225099954256e-01, 2.285726481936850296e-01, 1.796082413923750509e-01, 7.172710512647089143e-01, 4.928191649855402368e-01, 9.430574312761662581e-01, 7.068528606483934773e-01, 5.140772282900633039e-01, 5.293906783027451102e-01, 8.228106815202281821e-01, 6.016976407169383201e-01, 3.427414390766410635e-01, 4.616061841262344423e-01, 7.893536532439722198e-01, 8.796053998493311710e-01, 7.716144861219574880e-01, 5.210424693529149831e-01, 8.840632061725625102e-01, 7.172856169905698076e-01, 4.612390382857706750e-01, 9.967601874507023840e-01, 9.885736031620359077e-01, 9.412668784598271499e-01, 1.074456011972219766e-01, 4.434290680805300783e-02, 8.190308196718145695e-01, 8.605136141727000032e-01, 6.466196820126524081e-01, 9.249293371531661090e-02, 3.394068493097324724e-01, 4.577672778889672611e-01, 3.781727126108180848e-01, 6.558014754687998549e-01, 4.286983919941207977e-01, 1.218572071239811400e-01, 7.503332573374048575e-01, 5.125776722203621016e-01, 2.296346495912296726e-01, 2.614417728059261203e-01, 6.504934661484894631e-01, 7.412781950031520628e-01, 3.316973886032529295e-01, 9.420222405899272289e-01, 5.895257782225751253e-01, 1.675575612500766198e-01, 1.496415135949782059e-02, 6.916804804904629345e-01, 9.338602556077056915e-01, 8.852939943955048241e-01, 6.279563427625011185e-01, 4.307323097754839902e-01, 2.898851315573740539e-01, 4.488097224851876899e-01, 2.219688443644987907e-01, 6.853206258101043336e-01, 9.159844006050690268e-01, 3.807319593995068252e-01, 6.834910915647574026e-01, 8.626548578631539899e-01, 8.662858302792794118e-01, 7.253397427940788678e-01, 4.299890563577168923e-01, 6.441388317463299096e-01, 8.808581020206015036e-03, 5.096770868674199706e-01, 9.820846231524296699e-02, 5.649412129858218945e-01, 3.234565413055330296e-01, 3.627913333888969638e-01, 4.056667453628172715e-01, 5.645200478367050634e-01, 4.231764743295574616e-01, 7.296637265120565763e-01, 5.921951245233951777e-01, 6.128679223169217760e-01, 9.026297520925465889e-01, 6.225349632217122009e-01, 5.175919702612802320e-01, 5.661039106427276923e-01, 3.439915491807485903e-01, 9.904899569084922861e-01, 7.905248845674454072e-01, 2.159576928828470799e-01, 2.522509393253262178e-01, 2.330822499023738892e-01, 7.022820738428886544e-01, 1.048292384886989614e-01, 2.293953976973640146e-02, 8.855923238926611818e-01, 5.808572807535594684e-01, 9.252121908607527367e-02, 4.802653273349757890e-01, 9.296093499414066486e-01, 8.122050863332453963e-01, 4.803280232673506206e-02, 7.081049767235146897e-01, 5.095206087883024093e-01, 2.257108997122048433e-01, 7.140487384609081056e-01, 9.644721832438128972e-01, 1.499774061673259939e-01, 3.584932706052399443e-01, 8.748059783066221007e-01, 1.421079709244454925e-02, 3.145545241954183502e-01, 6.712235147719705641e-02, 1.598885594495974838e-01, 2.951803078625521715e-01, 5.675088237223453458e-01, 4.798419408556978127e-01, 9.503258193896421124e-01, 9.929971463361063622e-01, 7.013459568839125469e-01, 4.378795499955403375e-02, 5.992887167551504968e-01, 6.987786765565076053e-01, 2.934137461225330701e-01, 7.317683169502898766e-01, 3.874070387056911535e-01, 7.100158097444725369e-01, 3.677060761078514983e-01, 9.707935019138619337e-01, 5.082597872163308050e-02, 4.326340444556071030e-01, 8.540939030384792074e-01, 6.276075014978763633e-01, 8.324332965214180646e-01, 4.871726655640465364e-01, 6.375107184979512676e-01, 4.679989649929378048e-01, 4.459852579949495355e-01, 8.402098048746649284e-02, 8.801684219828161959e-01, 9.959292614126691312e-01, 8.170628546951640425e-01, 9.568438842675260902e-01, 4.419355327618963991e-01, 7.831712996298461071e-01, 4.542580933578453384e-01, 9.610646223664846000e-01, 2.607201148495236209e-01, 6.352757996432684129e-01, 3.718843355974615905e-01, 8.112354473080460870e-01, 9.017946670133325515e-01, 7.662043849877757662e-01, 3.152059515911365128e-01, 8.050263755613148442e-01, 3.824040711450793495e-01, 7.050681811800068033e-01, 3.598640591612262130e-01, 2.733081631633060837e-01, 4.563409049273585150e-01, 2.807166806227539557e-01, 6.515551125519020159e-01, 9.295820799003511326e-01, 1.424246704304020852e-02, 3.525486109914183208e-01, 1.326285587804228727e-01, 7.294508335403387944e-01, 8.105014479114198700e-01, 8.306277632490027818e-01, 3.853168659977079802e-01, 8.238393267238692808e-01, 2.526238976308668449e-01, 7.715555094594667151e-01, 4.692294756292619273e-01, 5.923814840748885535e-01, 3.984894611518752794e-01, 7.848365526506591305e-02, 1.652926154333133474e-02, 1.581664532334570994e-01, 7.924325721354648355e-02, 3.849434738038365333e-01, 1.494311270935280433e-01, 1.835297142732707776e-01, 4.638433527911770549e-01, 8.404818328831750729e-02, 2.357633529405677164e-01, 4.707048480764277620e-01, 9.126134653650421757e-01, 1.045881516436456271e-01, 8.768351829755969273e-01, 1.194800650757311539e-01, 5.891763764509622137e-01, 9.379480898151022483e-01, 2.293602667624695945e-02, 7.196261007180378977e-01, 1.462428099676513216e-01, 5.352662932779173044e-01, 7.684332007457723712e-01, 8.438273521142715117e-01, 7.006075940673668345e-01, 1.379482157606127801e-01, 4.446996568541232708e-01, 1.320012443771399757e-01, 3.507169707712201046e-01, 9.573893294018526179e-01, 6.649143211719120705e-01, 3.657007941372130144e-01, 9.461816545866922334e-01, 1.080232458562273012e-01, 4.430631327682325038e-01, 6.971809580495801351e-01, 6.211289960885978401e-01, 3.431918376478740318e-01, 5.763363027442430786e-01, 7.997117886785437557e-01, 2.388414218539664791e-01, 3.249053591372876304e-01, 6.937958386209981398e-01, 5.950023026871044118e-01, 6.908493696839729248e-01, 1.758799996570293844e-01, 6.923344083330718046e-02, 9.420397146423619139e-01, 4.011333529771685669e-01, 1.744119890379269289e-01, 8.837968785981464848e-01, 4.345123898549661523e-01, 6.583634717704477390e-01, 8.668316759540989347e-01, 1.333824262278864026e-01, 2.125598431860451221e-01, 4.232663256096698690e-01, 5.514563752814879427e-01, 1.130437398791613451e-01, 8.859804613975572618e-01, 6.547641807232482680e-01, 1.328958922672860699e-01, 7.680566084010430616e-01, 2.018331309662969308e-01, 6.449867673255468281e-01, 2.507952012593228086e-01, 2.425124673193082836e-01, 1.435426772700684195e-01, 6.545474256826637749e-01, 5.069058056145788749e-01, 2.514272697655507982e-01, 9.160282745141921090e-01, 7.301337553704805028e-02, 4.803837782298022718e-01, 7.522336730500351898e-01, 7.694114748944679283e-01, 6.940849277969037834e-01, 5.619480910178356603e-02, 8.047775474230519643e-01, 9.416491248670930125e-02, 3.889801021239051582e-01, 5.207587313972031895e-01, 3.610818962783395869e-01, 3.585829441715541188e-01, 8.349947201120928586e-01, 3.706682573656486235e-01, 5.450260360585491570e-01, 1.464912593267548267e-02, 8.525211025571635126e-01, 3.715733751646373428e-01, 5.029004470286289052e-01, 5.455694234529655517e-01, 2.601443602822853252e-01, 5.212143011570282702e-01, 6.577882868304173458e-01, 1.934470284268994256e-01, 9.972033929085494242e-01, 8.936779666789264054e-01, 4.061254038543348210e-01, 2.365590346876397798e-01, 1.979720204297066161e-02, 9.674849213799936454e-01, 3.916716460116945742e-01, 4.970200877521284144e-01, 4.329775136517296508e-01, 6.575585750106818228e-01, 4.408724608332274530e-01, 5.250302294573420125e-01, 4.849604427962105890e-01, 2.664445706386836532e-01, 2.521915187444336293e-01, 4.850402175443427333e-01, 8.037181631895575773e-01, 6.691122726772291696e-01, 7.931311795873643433e-01, 4.477389280905181845e-01, 8.796382148181154381e-01, 5.347542567165589622e-01, 5.613733201949283776e-03, 4.329915294205793908e-02, 9.647476014237055253e-01, 3.296608194833605121e-01, 7.358816045798164396e-01, 9.925193657861494101e-01, 8.815874244434622753e-01, 2.203930098667145621e-01, 3.448324522962902816e-01, 5.817346994813111793e-01, 7.631779660912927366e-01, 2.911402880260520187e-01, 7.862034172924559083e-01, 5.325808097022910470e-01, 4.578108981447849835e-01, 7.421264059544429026e-01, 5.157188384654253221e-01, 7.718685262044188145e-01, 3.470253945654052513e-02, 4.339548763007656240e-01, 6.930169736267284275e-01, 9.459082050086483617e-01, 5.314908265600770676e-01, 9.086479604440922397e-01, 6.218316303253408339e-01, 4.252942691270549802e-01, 9.086346451478508612e-01, 6.280006166900738984e-01, 8.681411063339947720e-01, 1.578922318523232060e-01, 6.429273233193644188e-01, 4.745636766691066488e-01, 7.015692722483922728e-01, 9.241437543741329863e-01, 9.881213513268469750e-01, 7.966682276319480005e-01, 1.981133702898092430e-01, 1.267045326448323350e-01, 8.949311894338601858e-01, 8.106750805109250724e-01, 4.685706269444586125e-01, 4.039388996982128943e-01, 6.345942853862809319e-01, 9.119268040297194219e-03, 2.327204156057911810e-01, 5.151338606432201983e-01, 6.669321267214119997e-01, 8.784181990179353861e-01, 1.210050834897667821e-01, 8.214403430125222227e-01, 4.163199182298623624e-01, 2.434751601430255041e-01, 4.520537354054832146e-01, 9.967527303315737441e-01, 5.799669024494730207e-02, 1.646813934466218321e-01, 5.037490438048344288e-01, 6.934587821814834907e-01, 4.366922586429477504e-01, 4.296552327616553479e-01, 2.793726344456812227e-01, 9.432425141640615740e-01, 8.747521092104729723e-01, 8.357293331360208244e-01, 8.055856112006315461e-01, 5.714060743344724358e-01, 8.430608778372034040e-01, 2.964481568860370952e-01, 7.731614679952268920e-01, 5.320034810691915972e-01, 2.174969689215075497e-01, 8.701550254387138139e-01, 5.360267949035480983e-01, 3.306825946336160449e-01, 9.798893240413772965e-01, 9.183726317693453600e-01, 2.526834666174178068e-01, 9.577623511993348104e-02, 4.017727057398312041e-01, 2.173903109715613902e-01, 2.954234143915395738e-01, 5.919685414096091947e-01, 4.047017292603148908e-01, 3.757631953581119788e-01, 9.534846339902419698e-01, 1.163667329952181306e-01, 1.671341058979339267e-01, 8.047957301977600730e-01, 2.501109292731998335e-01, 4.206121833477184380e-01, 9.734649947201042819e-01, 9.212400413065152671e-01, 1.012580204166063230e-01, 9.362733600334312012e-01, 1.826350594721967979e-01, 6.033578294591889213e-01, 5.586929785516292490e-01, 5.912295101161529898e-01, 2.111921011282096861e-01, 5.700707617337411603e-01, 1.827903900113789226e-01, 4.737385792369950277e-01, 4.030378459020615978e-01, 9.757419579086745731e-01, 5.862229393147875278e-01, 8.430265504767384677e-01, 4.154771231124442799e-01, 2.144629202747493635e-01, 1.180221478258876022e-01, 3.824857086784174132e-01, 3.815187531172368196e-01, 4.774784892735903230e-01, 9.992375926375475226e-01, 5.661283027867384243e-01, 1.824656943180267832e-01, 8.797902415897270734e-01, 8.053723780816244293e-01, 3.179527839764906827e-01, 3.761414592089371012e-01, 5.618361339517385922e-01, 8.335421803863504175e-01, 7.769059426132607360e-02, 4.374298553652105070e-01, 2.036609720133658041e-01, 1.699883741545943072e-01, 5.654412031420058549e-01, 9.265504971077891394e-01, 2.014428148185372358e-01, 6.481667346744919289e-01, 2.233094667524327878e-02, 9.450014285394663371e-01, 8.695506769959340243e-01, 2.883502917965685697e-01, 9.588462780937194729e-01, 9.556513373925448751e-02, 1.337170006306124259e-01, 1.060943805051607486e-01, 6.595124833223021676e-01, 9.047578456392814106e-01, 6.202383931897996749e-01, 6.792328796462122620e-01, 5.393323157631798592e-01, 7.489850367070595150e-01, 1.575125788404770910e-01, 2.274099285339091781e-01, 4.930682180056522590e-01, 5.396634626924986522e-01, 8.738325868686592779e-01, 8.612507511996840837e-01, 4.254348586713730396e-01, 8.223702028559890520e-01, 4.681319707771964267e-01, 4.495940923868130823e-01, 2.759592380870697359e-01, 4.413720957882961704e-01, 9.888619765671913253e-01, 9.371575907621684243e-01, 2.943788449067538116e-01, 9.314717140208920165e-01, 2.328005673243427609e-01, 8.918466937309479370e-01, 2.177571592350643626e-01, 4.093474354263753057e-01, 2.756685425834606851e-01, 2.301988161085706808e-01, 8.057361579135111085e-02, 6.067391570808320367e-01, 8.238046200387372231e-01, 2.414043737917947186e-01, 6.050511475947714102e-01, 8.207424747596894221e-01, 6.623874897482328050e-01, 7.550180643983906981e-01, 5.027753662404481627e-01, 6.233549794395752963e-01, 7.023602490451724689e-01, 1.838031912610486041e-01, 1.855318124365559849e-03, 6.248923475213842282e-01, 9.864836479450165285e-01, 2.622466734356880200e-02, 6.924260234700576611e-01, 4.695502247282829500e-01, 9.208091653261838427e-01, 4.531494276969204593e-01, 6.271726527037405630e-01, 7.209367287526502466e-01, 1.327732023833660124e-01, 2.533326209398429896e-01, 2.931913490236539022e-01, 9.660743696100102529e-01, 9.771869746565226000e-01, 9.558448827851371288e-01, 6.553745981676448729e-01, 2.099353120576837317e-01, 3.207986922135005470e-01, 2.828998365638454512e-03, 4.086714415497275099e-01, 8.100997020412286087e-01, 5.070945398700427154e-01, 4.526690821612313620e-01, 9.330175649362102419e-01, 6.527618734506365206e-01, 2.674029307525412347e-01, 7.240460453016382969e-01, 7.972038303024613359e-01, 2.497095594149116859e-01, 9.964482098118898623e-01, 6.011399439176556836e-02, 4.449250446993239794e-01, 4.657965754035007198e-03, 7.029568766558215165e-01, 7.451294472804613767e-01, 9.009483695506211864e-01, 6.529665578425952743e-01, 5.478224309762387279e-01, 2.962256883348738171e-02, 4.049891809561643186e-01, 1.433436752737350106e-01, 5.673250857201047465e-02, 7.174893263538518751e-01, 7.243223530897540119e-01, 3.263424128183153305e-01, 4.875059317322851804e-01, 8.189883750488737846e-01, 2.448595081831005937e-01, 6.282931283969654945e-01, 2.911997911710321185e-01, 1.818404805122716961e-01, 9.634055905590709346e-01, 1.037358992121002327e-01, 2.089491826361162818e-01, 2.634783489608520744e-03, 2.704510477808530489e-02, 6.788976861769391302e-02, 2.427893605918050313e-01, 9.693147275613204217e-01, 1.403068521539702906e-01, 2.028686030452967470e-01, 8.580504738052625591e-01, 8.281486775258872779e-02, 1.351298841296022513e-01, 5.592574030200917479e-01, 5.227212914292065360e-01, 8.360162328154668865e-01, 4.545731629535598034e-02, 3.245609031793034172e-01, 5.676787382536010451e-01, 3.741104305082073589e-01, 4.702774961794387726e-02, 7.652641694167836572e-01, 3.264841857351826748e-01, 3.888278551048587328e-01, 8.886365375351921170e-01, 6.213279841981081963e-01, 4.341267777189998234e-01, 3.280673606431228767e-02, 6.637287315055989678e-01, 1.208433393010678314e-01, 9.911950808346903230e-02, 2.915535503641627502e-01, 3.447861553493191122e-01, 3.756690542428996471e-01, 8.278894238342056067e-01, 9.853685631348294560e-01, 8.178131920438570512e-01, 3.538338913658639617e-01, 6.796144504481738124e-01, 5.927086581751491723e-01, 1.267933192339690818e-01, 2.085687898210429603e-01, 3.942312520964269540e-01, 3.196235329296845951e-01, 3.358731586681364817e-02, 6.277142270586398842e-01, 4.145597187506574466e-01, 4.973069235104878860e-01, 3.640992456564013935e-01, 5.119460020291555225e-01, 7.569299470219633674e-01, 8.113347061590553411e-01, 2.132077393407567634e-01, 2.304820875896270993e-01, 7.407949671575534412e-01, 4.058300796290552070e-01, 3.714459516243320270e-01, 4.166877468352173652e-01, 1.772205590395701247e-01, 6.774402968707184947e-01, 9.290704962135991340e-02, 8.236089053495663226e-01, 7.135682680098353048e-01, 5.202266868996758831e-01, 2.231478532991518771e-01, 9.783500118837369364e-01, 1.187756825237409330e-01, 9.305890511689839384e-01, 3.808013980619307515e-01, 5.471751885027335005e-01, 1.867951212539035273e-03, 2.931657102029752160e-01, 4.678551898496845496e-01, 1.790281326884574920e-01, 6.670521546449375005e-01, 9.424468818692264271e-01, 4.689837651494394022e-01, 5.052472646535565159e-01, 8.333887948857708894e-01, 6.289026640985012628e-01, 1.518412752654584030e-01, 1.754721231443026053e-01, 4.996059052369576925e-01, 9.712309623691968152e-01, 9.279067556043365528e-01, 8.900134677545734618e-01, 1.623787066856619832e-01, 8.116668220265268463e-01, 1.306848069125092215e-01, 9.074022403885384502e-01, 8.699712262974353960e-01, 9.228788327049868012e-02, 9.078317913148110652e-01, 7.453864442683278968e-01, 4.083053539246883634e-01, 2.419136529731118757e-01, 8.294553176866196198e-01, 5.250025194285973251e-01, 8.236286515525100826e-01, 8.376658126307422458e-01, 3.498573280280051212e-01, 8.560636935299648087e-01, 6.368664090008563372e-01, 2.252394343361774354e-01, 5.453414813932503380e-01, 3.567829609428370130e-01, 4.312368561543403755e-01, 5.501007037817391421e-01, 4.654423445629450318e-01, 4.256973147737714291e-01, 6.545233916965814691e-01, 1.989379451245055011e-02, 3.647806800413125328e-01, 4.337630994845819155e-01, 9.802770764107466839e-01, 5.388368305464122932e-01, 8.495872371144719271e-02, 5.217723997023594462e-01, 5.364013555524904664e-01, 8.071758844904041164e-01, 9.608544345580611878e-01, 9.398565604708665200e-01, 3.617321798673895500e-02, 1.644855215655535163e-01, 6.920823526775174983e-01, 3.728679132826798748e-01, 7.245104506431353508e-01, 5.310442245208032430e-01, 7.966790290858746237e-01, 8.770348446114459851e-01, 7.229527530619925813e-01, 8.388589622742620433e-01, 4.736573581747825501e-01, 1.337739005927239544e-01, 6.106094385747014019e-01, 8.254000432330969861e-02, 1.873646549673813055e-04, 4.687052591449523270e-02, 4.401175106249576308e-01, 1.879887074142665426e-01, 7.695137848539785885e-01, 2.408354136304884374e-01, 5.662546669427395152e-01, 5.248643812063675806e-01, 7.630294105556613138e-01, 8.550168702785629904e-01, 5.360832576435784480e-01, 3.227330054577671192e-01, 2.093946827417590972e-01, 7.617315720699469050e-02, 8.157024617996355698e-02, 8.979035194532183350e-01, 6.163849205994454961e-01, 9.089793761186193422e-02, 5.385832635667828772e-01, 5.207067280580915947e-01, 8.753510864442030082e-01, 6.570501320969527326e-01, 5.139459714793206402e-01, 1.396190657965855342e-01, 8.180199386507993609e-01, 9.079376585927605436e-01, 6.697429754023495052e-01, 4.336773698586343651e-01, 1.191836318041399057e-01, 6.875517431307540672e-01, 5.184792170377532372e-01, 3.299061623714937830e-01, 9.268656043974873304e-01, 8.786146544172103168e-01, 8.165737196613709337e-02, 5.812275799586004432e-02, 5.006114489204203100e-01, 6.489169488426975718e-01, 4.838860582804170862e-01, 5.487313633594026463e-01, 5.822733777841896385e-01, 6.853624481419224868e-01, 4.549437044471819069e-01, 2.409757500239693706e-01, 1.576338478295800372e-01, 9.353734692971661380e-01, 2.494494918704009967e-01, 2.445086421703875912e-01, 1.855977090436813914e-01, 6.943120946529425241e-01, 6.420326573667511916e-02, 8.218004850568226827e-01, 9.098949262596360832e-01, 8.267525537907458588e-01, 7.861804992485554866e-01, 5.859135271238432585e-01, 6.174221113728023402e-01, 3.139503368927168414e-01, 4.640270696280620055e-01, 9.271682111188893627e-01, 9.659826423540476270e-01, 1.113869446886328780e-02, 9.286856346549789976e-01, 2.840771877517960231e-01, 2.209690848863500867e-01, 4.369723019202974984e-02, 3.224056497323272152e-01, 4.317932071663976856e-02, 4.805625377135246401e-01, 8.884607173182204054e-01, 3.086073239165847970e-01, 1.468689934569480104e-01, 9.002535213865121844e-02, 1.951506573328845584e-01, 2.243952329734077433e-01, 9.937215780515499253e-01, 8.560727262987098962e-01, 7.395963318035282397e-01, 7.596295432508464174e-01, 5.946257561347342291e-01, 2.531331504033550450e-01, 3.526489222564442860e-01, 4.193633976982991118e-02, 6.141398371340995865e-01, 1.238591200400133985e-01, 3.841571035478293927e-01, 1.046148734523562052e-01, 2.580829667608073308e-01, 5.963046284267694563e-01, 9.788198917728222481e-01, 6.869388609724598194e-01, 9.897610892422394890e-01, 2.138638852914284960e-01, 1.606702094812549053e-01, 9.944935282963373452e-03, 7.731524269689050710e-01, 9.786942667482625424e-01, 7.284862168277691508e-01, 5.712347449076460304e-02, 6.895865282855963008e-01, 2.761496595727111480e-01, 3.615248701783492224e-01, 8.789917476622118864e-01, 6.906885591540387059e-01, 7.670904107243635695e-01, 4.893268010097513998e-01, 6.149800702730454788e-02, 9.849590413954588675e-01, 4.702318529494914356e-01, 7.402107837139398905e-01, 2.742549892954094792e-01, 8.472640455931436110e-01, 5.256939604474575312e-01, 9.219367148821647762e-01, 6.357037972313263063e-01, 4.784621871444971197e-01, 3.498940537424638508e-01, 9.592815900882541991e-01, 9.642360803754518317e-01, 2.591650080366760811e-01, 2.335722804627036464e-01, 3.696369606546360265e-01, 4.739855451480076004e-02, 3.796532286396116507e-01, 3.221019406223115666e-01, 8.402714377348552421e-02, 2.027426063232335429e-01, 2.219122734738327163e-01, 7.782278396446644375e-02, 3.013578709175382397e-01, 9.972885381901683832e-01, 1.998363954561945544e-01, 3.501396268137784706e-01, 8.851843321271323228e-01, 3.027093680595244751e-01, 1.125140796141616342e-02, 1.094988175205398456e-01, 7.270044671304668471e-01, 3.261254457979328447e-01, 2.204056562613011527e-01, 5.039952973650920764e-01, 7.280885166652732998e-01, 8.198860931397617957e-01, 5.011156529892261124e-01, 8.149551557177647787e-01, 2.330209190941079367e-01, 7.982870418767944176e-02, 8.282116589340254853e-01, 8.814309204138259801e-01, 1.506350656348134365e-01, 5.031020782607726893e-01, 3.387615829448775706e-01, 3.161861423693411721e-01, 2.531528180258954541e-01, 2.356058462469569903e-01, 3.882240114205700449e-02, 3.505999104959427459e-01, 4.054817416445856415e-02, 3.948655652790605264e-01, 4.159829376137740703e-02, 1.008919536463732392e-01, 6.435490663081341323e-01, 9.348490604826228401e-01, 4.693270084665348563e-01, 9.215738238371852242e-01, 3.938858201126217429e-01, 4.263189348814134250e-01, 3.680094468184522682e-01, 4.597744296821844046e-01, 8.191986455252631139e-01, 6.257752213126039909e-01, 6.901621653767000542e-01, 7.908053107425573325e-01, 2.290046651561671032e-01, 1.487071756903318442e-01, 6.548778941660746700e-01, 2.372748929016526009e-01, 5.189302864971957474e-01, 5.839244473249404210e-01, 2.497780526318159888e-01, 4.105052574854787806e-01, 8.067467471712178595e-01, 7.864768645170764350e-01, 3.398739275967863072e-01, 4.900830495096528128e-02, 6.449189895540677342e-02, 9.942840748396341022e-01, 7.255025284228404647e-01, 4.811349775002766727e-01, 7.043487024441081878e-01, 1.309139307681264353e-01, 9.566889898876920206e-01, 8.743856793362639879e-01, 2.294520016375557400e-02, 6.824464732487602880e-01, 4.220303655923668407e-01, 9.533621427724733310e-01, 6.447553512854977686e-01, 3.520622173035137248e-01, 1.060832126255669139e-01, 6.926464426874894276e-01, 6.882795473906911932e-01, 1.829498463880024073e-01, 1.860298092707882711e-01, 7.682217953724558290e-01, 9.099095966212387143e-01, 4.733643911233166301e-01, 2.472125648368635187e-01, 9.338449475488431739e-01, 9.149705021855988329e-01, 4.239926544067690317e-01, 5.529930791817836422e-01, 1.383271101408604653e-01, 8.281333456639748958e-01, 8.092333364251454164e-02, 9.159863391637454999e-01, 8.147134925541148487e-01, 7.842968991722154559e-01, 1.214220527867702765e-01, 7.743349335137141853e-01, 2.173597937989233397e-01, 2.033957644386018560e-01, 5.621025132959641679e-01, 3.310057859992118212e-01, 8.451966556273142472e-02, 5.727013219089212015e-01, 1.995419487483929277e-01, 4.103586750665144112e-01, 6.672867747473352207e-01, 1.263751033649260780e-01, 2.138184746848715290e-01, 9.647055951881253200e-02, 1.267545645847595603e-01, 5.070932919910335901e-01, 4.031657344998924031e-01, 1.274192570949783665e-01, 9.282111442461410400e-01, 5.057229949045931594e-01, 8.068454700211771247e-01, 1.969029343345523042e-01, 3.644676419752098107e-01, 8.571131858665680392e-01, 3.164546989449064651e-01, 7.240188014773365488e-01, 3.888420293523844329e-01, 1.735021819090765138e-01, 1.465587329695638152e-01, 8.198938513289791841e-01, 3.285993795014334196e-01, 8.760988405876645180e-01, 2.359868617366847054e-01, 6.742978409368360904e-01, 3.966880080677366582e-02, 7.165819651949882907e-01, 5.900879072906857203e-01, 2.739331572310279572e-01, 6.954954818078443735e-01, 8.597449357782310786e-01, 5.595205676615301327e-01, 6.079250182257518453e-01, 7.103517052997052605e-01, 4.699999881239856347e-01, 1.850244133407376035e-01, 6.145265964241183321e-01, 4.279174876191110255e-01, 2.504697245173341247e-01, 2.840928841242615355e-01, 6.190350344709991681e-01, 5.518100315691931018e-02, 8.820364177010350248e-01, 7.329569959408999136e-01, 5.059830706812957768e-01, 7.204332193156934849e-01, 1.312892351537008340e-01, 4.390668598105736398e-01, 6.659705613472682861e-01, 3.354760458427123448e-01, 3.617183559612159871e-01, 9.307964671022259662e-01, 7.999716683664016559e-01, 6.624555336074259282e-01, 1.317889541359863470e-01, 8.182765410441364962e-01, 7.734980356812590774e-01, 9.644022330680470656e-01, 4.182315003970809436e-02, 2.315109660888101939e-01, 9.999325340467576373e-01, 1.247187388615046411e-01, 5.836415263252489050e-01, 3.593804253529309101e-01, 4.728821722625312085e-02, 8.983826242239006943e-01, 7.084652629763037168e-02, 8.246548400551337865e-01, 1.695589682714306601e-01, 5.762796247569879071e-01, 2.201126532289348348e-01, 5.451853023876314097e-01, 2.237088242142600825e-01, 3.376236733969910642e-01, 8.294133704122050865e-01, 7.097203072163411619e-01, 2.441183714818731532e-01, 5.066264717334023615e-01, 2.264275600075545403e-01, 9.165167562933652645e-01, 8.090652903972690435e-01, 1.736771532382291039e-01, 7.726587898619718953e-01, 5.570191800334592935e-01, 3.904455028651566129e-01, 8.842470420679912069e-01, 9.552639441514635399e-01, 1.280064452561470167e-01, 1.179580780280996416e-01, 2.477505607017961575e-01, 6.003152099397053298e-01, 4.518274381068228540e-01, 8.319396965627704477e-01, 1.025522153288376259e-01, 1.605414712404130140e-01, 9.593470396871039974e-02, 5.857074633781045314e-03, 1.572358945242744999e-01, 2.052398556835389465e-01, 6.507038154269544350e-01, 1.402060896161402004e-01, 8.347178057887285618e-01, 2.653632038976082019e-01, 6.246771260366659195e-01, 5.708945788356611928e-01, 2.395942680373377431e-01, 1.364480045434160460e-01, 1.090180225656291191e-01, 8.828642563521221787e-01, 5.648336992032648718e-01, 8.226110562043105201e-01, 5.836982906931257320e-01, 4.675552628651694631e-01, 3.052618418786881560e-01, 8.054888967274572709e-01, 6.562458811833914440e-01, 8.125815715238304815e-02, 7.141222795660471245e-01, 2.370817916601950792e-01, 4.040279267670865981e-01, 2.664171787893424570e-01, 3.773335163756538768e-01, 8.180466714135438133e-01, 3.642548813866925417e-01, 2.340591864466160799e-01, 5.447289277308131616e-01, 9.116828348384791170e-01, 3.784124523828723968e-02, 7.584792289456708525e-02, 6.591719531297940415e-01, 4.415400500082256596e-01, 4.860527214203641533e-01, 8.732065117359724127e-01, 6.895471563330497489e-01, 6.641313076106067914e-01, 8.049723582197794158e-01, 9.597757151251677665e-02, 1.689524602570299239e-01, 4.129251873644650406e-01, 9.208848774567570672e-01, 8.433244070138514736e-01, 7.706199079870496016e-01, 5.275827199217256736e-01, 3.722760080639723190e-01, 7.076126042001233962e-01, 6.610891767644916373e-01, 8.428155370112317968e-01, 1.028495390948195309e-01, 7.606857021278994047e-02, 5.633695110467313860e-01, 9.329798146913342860e-01, 8.732583224774931319e-01, 7.777232586057079011e-01, 9.038458445683447140e-01, 3.118657308214833890e-01, 7.290166805180922083e-01, 2.408977012590246547e-01, 1.052856583772048271e-01, 8.786575792248506600e-01, 4.751345270263319653e-01, 6.526787104384799143e-01, 6.761388690340992547e-01, 5.083524514781335712e-01, 4.272800464281217847e-01, 4.904533385948822710e-01, 6.777649320907743746e-01, 3.466764967420832844e-01, 1.396408847442061063e-01, 6.116476339248488880e-02, 3.020557375041753589e-01, 6.444943459667737753e-03, 4.296435459560479786e-01, 2.916142696513091340e-02, 6.113993346484314362e-01, 4.577124040236554836e-01, 8.715569346887259705e-01, 3.634648044524095289e-01, 5.257685437600345679e-02, 9.108738982127706496e-02, 8.449244458367402011e-01, 4.287656499006208266e-01, 1.261746073393791856e-01, 5.490924785863157132e-01, 8.830054730657609374e-01, 3.413857400336640091e-01, 6.456086351472430929e-01, 3.072086644700626201e-01, 6.830131016663499866e-01, 9.883693909862086846e-01, 5.669157472903471780e-03, 2.256176074203734006e-01, 7.710186929407301104e-01, 5.742798620278695143e-01, 9.099300167673805007e-01, 1.496479179198537957e-01, 9.573186986183001013e-01, 3.560795607376445737e-01, 9.683505374454547399e-01, 4.104920207969060542e-01, 4.941710937254272795e-01, 8.659351504810511857e-01, 2.938348200303364521e-01, 1.446232714778594997e-01, 3.414795350889163195e-01, 1.147683653359647671e-01, 8.138924441734343151e-01, 7.428037812798049533e-01, 4.096050259419655726e-01, 7.099308307009228880e-01, 7.629252219690688674e-01, 2.293619156294908201e-01, 2.322009471442649797e-01, 4.040062093680279465e-01, 9.725969174692564723e-01, 2.194794428784092866e-01, 6.583871561358349833e-01, 1.927857311442968472e-02, 4.640915217313950070e-01, 8.227903495185184823e-02, 2.296953848792349373e-01, 8.333957497770778655e-01, 8.091673076145645682e-01, 5.050377877173153340e-01, 4.800904483195111982e-02, 2.304859273092053629e-01, 5.092954438922875360e-01, 3.848552095843256384e-03, 2.942360938433515871e-01, 5.845535701338011592e-01, 1.569420149933487552e-01, 7.867521369046545088e-01, 6.486754988905003572e-01, 6.640445993443314654e-01, 4.484700039307024100e-01, 3.488070826649050660e-01, 8.719301441942921560e-01, 6.743419747466956604e-01, 3.419001727357565690e-01, 3.318020501279166368e-01, 7.291193563482066820e-01, 6.519683259325081970e-01, 7.797653942176123731e-01, 2.772017090729153588e-01, 2.697171595110307574e-01, 3.498187718990331541e-01, 4.975943464992629295e-01, 2.011800007620182518e-01, 7.706760856513635849e-01, 1.919775459805492523e-01, 4.830279870676590370e-02, 9.820410104465000511e-01, 4.385807022546802103e-01, 7.814510222118792315e-01, 3.548423986917038087e-01, 3.311326667720047023e-01, 1.378161030679151411e-01, 5.298332842412213362e-01, 2.639011854842814309e-01, 4.450953611376902153e-01, 7.197076820575351030e-01, 7.308697959989254311e-01, 5.407829278806787210e-01, 7.210261563491239534e-02, 6.168793059790849131e-01, 1.591672701174063898e-01, 2.335549037228878966e-03, 1.634289218926971987e-01, 8.686377483690244095e-01, 8.752185861618356766e-01, 6.463618666200225960e-01, 2.580000915948124640e-01, 4.214353874288518376e-01, 4.740791986276656766e-01, 2.865095607290349955e-01, 8.714541459603686313e-01, 4.562375969581776158e-01, 7.131537622947847765e-02, 4.425194507422854917e-01, 2.580697235819528479e-01, 6.823016264192631741e-01, 9.301271389852817650e-01, 8.390869815175568958e-01, 7.352718823535946413e-01, 8.094582315114305926e-01, 7.285458921739115246e-01, 1.907854438519323292e-01, 8.128384524448861725e-01, 8.249268140177038466e-01, 3.789665838892675720e-01, 3.533115153783637080e-02, 8.317258600922556866e-01, 2.720900013082584445e-01, 4.334983099907617765e-01, 3.728144808667282484e-01, 1.804572434517245916e-01, 3.074953305886594102e-01, 6.530711292742118479e-01, 8.807765128007313815e-02, 7.503724995550844490e-01, 6.491971201415631665e-01, 8.449082793259632407e-01, 4.199828305501250303e-01, 1.961629660409769105e-01, 3.930451578823910830e-01, 1.058769002849735841e-03, 5.420334295005947434e-01, 8.325264986388427602e-01, 3.362934719610117251e-01, 7.049635441104169509e-01, 1.468346165502053546e-01, 4.287091292500562201e-01, 1.752212044462088392e-01, 6.288430455137501429e-01, 6.644262346553763132e-01, 8.049574346722088158e-01, 1.844595563226822943e-01, 5.262113038680269472e-01, 2.855271069089614366e-01, 2.312582491040504618e-02, 1.377916345166596834e-01, 4.082540122181411713e-01, 1.698028720230969069e-01, 2.630316974289094722e-01, 7.726132117442396918e-02, 2.600893924917972444e-01, 8.513860638910588641e-01, 4.570973082209153215e-01, 8.105343981667307851e-01, 1.359868024606279979e-01, 4.913613019296242945e-01, 6.097958874435818050e-02, 3.604788256087698151e-01, 4.831444841303728088e-01, 7.741685364122468105e-01, 2.283430509765862482e-01, 4.342019948362728643e-01, 6.109139360284588927e-01, 6.963137190325723314e-01, 4.668975256388244732e-01, 3.855223819102678307e-01, 1.599233781387820741e-01, 7.083873423825156612e-01, 3.342176308448106814e-02, 6.190093649414734056e-01, 9.909620377701696681e-01, 1.062165584290174491e-01, 1.467735951206554645e-01, 1.774454383850178063e-01, 3.596302530641024564e-01, 7.052055515717553513e-01, 6.222164822051463595e-01, 1.688975620717229897e-01, 6.328474939759742846e-02, 1.630553296735108570e-01, 1.924051028225950422e-01, 6.454316303928020471e-01, 1.411359250167783241e-01, 4.157857054578937284e-01, 9.117509802818833942e-01, 2.792771265789248947e-01, 2.575691790528358838e-01, 3.836637347989224622e-01, 9.650284049217151550e-01, 4.631591619516033931e-01, 6.426491740485046344e-01, 9.081856340275973327e-01, 4.910680751801339006e-01, 7.468833788385634831e-01, 1.198874823692154257e-01, 1.256790796533956700e-01, 8.101300231467992718e-01, 1.638613911117128841e-01, 1.338112207486932270e-01, 1.515729949171180646e-01, 5.395685353408287144e-01, 2.897052157902702541e-01, 1.211903937027152267e-01, 3.562991531082747021e-01, 9.554178069273723539e-02, 2.481244300871903175e-01, 7.396704964647753400e-01, 6.616679513775880483e-01, 5.011378461650367599e-01, 3.701510509530084314e-02, 5.757186675888106286e-01, 4.492720883367281592e-01, 3.346555038761830358e-01, 2.323171849558867408e-01, 3.755977023618135568e-01, 8.311596369451795807e-01, 3.086621264038899581e-01, 2.552361365323291276e-01, 4.291874722083987570e-01, 3.152520685573875214e-01, 2.569438779469832568e-01, 2.072296533940162777e-01, 3.883934079245479065e-01, 3.913218382505733173e-01, 7.864031391142336513e-01, 2.410438255220852533e-01, 9.737236650780709546e-01, 7.236310816771835963e-01, 3.988856887247415606e-01, 4.011001191031883517e-02, 3.254255218238538139e-01, 8.127493721832668161e-01, 9.084106615254389228e-01, 6.798008121212255617e-01, 7.803086145640869553e-01, 8.882331022493976380e-02, 6.136992083698101785e-01, 4.206713298014518321e-01, 2.161586634682234609e-01, 6.218389844042648829e-02, 4.863979896748396037e-01, 1.810463095698784664e-01, 3.223940073267852480e-01, 9.955755739229477097e-01, 4.160307030018145502e-01, 3.845237037749886788e-01, 1.582830223628804711e-01, 8.215454050992888613e-01, 1.344344892430698324e-01, 6.831262066177723469e-01, 5.052025168649618703e-01, 2.742439617323976231e-01, 9.530710432891179584e-01, 5.471825865468642469e-01, 9.423337274898996307e-01, 2.470432488429554763e-01, 1.531948080932732936e-01, 8.478283660826501089e-01, 9.899521058742576374e-01, 2.219795721318141013e-01, 8.936552962874845518e-02, 4.578812961889369010e-02, 7.094126557236273278e-01, 7.120053605610139336e-01, 1.045562947311544644e-01, 1.001964310738227698e-01, 8.721765196180714108e-01, 1.334728662666669896e-01, 4.237352026795544457e-01, 6.179084324800274697e-01, 5.775943945399245605e-01, 1.606142336947472549e-01, 1.106279792873104822e-01, 7.748294039183731274e-02, 9.629753929117411682e-01, 6.467770976372676228e-02, 5.667103370003879759e-01, 3.811014503726052882e-01, 7.512759943508741101e-01, 2.194798256271476844e-01, 7.212870029511775360e-01, 1.428768073005013128e-01, 7.965055733244487124e-01, 3.195775945852270539e-01, 6.664600659079529255e-01, 8.537739269242219375e-01, 7.711656637547026349e-01, 6.607370717336943367e-01, 5.838446094237266237e-01, 7.580531290360298380e-01, 6.193395884362177251e-01, 3.736837683232744484e-02, 6.078491820053381067e-01, 9.869096885731160063e-01, 6.571977544584667319e-01, 5.142343782817933029e-01, 7.477585751341206954e-01, 6.661111409044325748e-01, 9.836169855181853272e-01, 9.052348084002792561e-01, 1.825171313427812192e-01, 9.706143552565261734e-01, 3.126934463653161522e-01, 4.967589998962946840e-01, 8.221534296715647949e-01, 3.657992156273313089e-01, 8.922231049164727201e-01, 4.949284458195326586e-01, 6.401111831647240402e-01, 3.984934783272358616e-01, 8.555001372598081133e-01, 2.603888684343593218e-01, 5.802980533056006918e-01, 3.480947025043452103e-01, 4.413725971051698505e-01, 1.242637696779779199e-01, 6.637998553186277295e-01, 5.047138709653866684e-01, 5.505479733778784190e-02, 9.661837518776897893e-01, 6.356614050054479881e-01, 4.363978026388205533e-01, 3.957542477220455934e-01, 5.513832003233899021e-02, 8.512447861220294731e-01, 2.876759952381958974e-02, 3.610796385112213791e-02, 8.909592306160962760e-01, 2.449569852745564214e-01, 1.753398588475702791e-01, 5.877834962175455535e-01, 1.752718195352748476e-01, 3.971306943571648596e-01, 2.920778620315677698e-01, 8.926215967893688097e-01, 1.199686052796675312e-01, 4.825851930603254347e-01, 5.254624478594244197e-01, 5.033090697454582069e-02, 3.646876545709888950e-01, 5.825174832268344982e-01, 2.690356020088522926e-01, 3.854688140408110142e-01, 8.842746923711543028e-01, 3.195994367858634444e-01, 3.692693956692700841e-01, 4.772253255219332385e-02, 4.698392996628966145e-01, 4.574534682446841360e-01, 6.867935830582644341e-01, 6.185021832415275034e-01, 2.318308782876388752e-01, 1.804186225438896285e-01, 5.581725136386078701e-01, 5.143488421067451410e-01, 7.173495765950242964e-01, 1.953394023666445434e-01, 2.496149571995628369e-01, 7.423729657327886589e-01, 5.650695434948841411e-01, 5.483023794363636183e-01, 7.471480388512251603e-01, 9.859327121032100960e-01, 6.876822338458757899e-01, 5.264798813227352658e-01, 3.224444399598464517e-01, 9.663322509136822447e-01, 6.277002322991576122e-01, 2.583896416231760626e-02, 2.090166358328692242e-01, 2.450904969321716642e-01, 4.821358243567085977e-01, 3.675656743718819230e-01, 4.437925721698483539e-01, 8.246318810599364557e-01, 7.472346826282659782e-01, 6.724621801587563619e-01, 9.130204269698121156e-01, 8.154408632827976344e-01, 3.986367551629910189e-01, 3.973101228745094526e-01, 8.637114816795431471e-01, 4.991236054864486849e-01, 4.957762328596810320e-01, 3.970461233261612932e-01, 3.195075241401151289e-01, 7.583168409451603864e-01, 6.547134023884590981e-01, 8.307211891711908658e-01, 4.645055789208646924e-01, 9.552059985892210614e-01, 7.902901083613648181e-01, 2.569727947480549002e-01, 1.450501371700352315e-02, 8.783176757340035445e-01, 8.339795363427360275e-01, 9.942295184914727857e-01, 4.751861901754270701e-01, 6.810364445139923673e-01, 5.685874755394647595e-01, 6.268988456599460246e-01, 4.381467879456463765e-01, 4.180636532256056803e-01, 1.847001579784623149e-01, 1.223407639832757923e-02, 4.972493332536742083e-01, 5.805501392678493744e-01, 8.946593791851363831e-01, 7.573670515181918361e-01, 3.018170319318899120e-01, 5.757519046779336902e-01, 7.863843684580600069e-02, 2.781061861887761388e-01, 2.750020271382416781e-01, 1.381388780227266189e-01, 9.567213410535552187e-01, 7.631818875078744124e-02, 7.681281593842995692e-01, 6.095210679023240763e-01, 7.933944460573901791e-01, 4.625908574173245857e-01, 4.951674986872381945e-01, 1.416296934929879292e-01, 5.468376447532951046e-01, 7.168924075620566327e-01, 3.902577248089529882e-01, 7.454084595386301082e-01, 4.326161657998514598e-01, 1.363574263193034486e-01, 6.449402011929779022e-01, 6.592046199596314215e-01, 6.496440714036462172e-01, 1.138591261637739716e-01, 8.874868401050388655e-01, 1.401331624205603144e-01, 2.560620538881315245e-01, 7.024062377630774234e-01, 5.396889188089279976e-01, 6.250362749990445721e-01, 9.712517360874882710e-01, 3.338179988267838127e-01, 4.348686469456868320e-01, 4.259238760418012082e-01, 5.263286493966449209e-01, 3.545203609291999736e-01, 8.064208053303342227e-01, 4.537422604825771533e-01, 9.775748473112357839e-01, 9.517773190064007238e-01, 7.340962561797552688e-01, 6.474101352622300132e-01, 3.185297076968883756e-01, 9.273400350422544847e-01, 7.687091802325375367e-01, 4.485090994008456566e-01, 9.927088097110908782e-01, 7.189330399478657263e-01, 8.179693392501719007e-01, 4.733003964486470760e-02, 6.511595727460438576e-01, 3.017245419684743135e-01, 8.113748867561010325e-01, 6.865800378781261593e-03, 8.313222902366014244e-01, 2.801269353307022092e-01, 2.222835595227579120e-01, 4.251523261140451315e-01, 4.336437222458255913e-01, 5.457584424429654524e-01, 9.822222757956186601e-02, 2.077720564463478026e-01, 7.243342050290820788e-01, 5.871741377957013786e-01, 3.313468780211832332e-01, 2.737319493812371829e-01, 5.611078784482707027e-01, 9.683068657085548703e-02, 7.298826153089740254e-01, 5.976836828635178067e-01, 7.899007715783178396e-01, 2.689813955811631851e-01, 8.733508919043679875e-01, 7.943922010142708823e-01, 6.991225196059065450e-01, 6.035265491890594580e-01, 5.450818892858044773e-01, 7.796610152727808524e-03, 3.557670201728214687e-01, 6.970532493178754896e-01, 1.414875567743583973e-01, 3.735967966407512386e-01, 3.897466085776177813e-01, 6.045498765488448445e-01, 6.164698901366885142e-01, 8.385175958465383994e-01, 5.634550373200045148e-02, 6.440705962409974950e-01, 7.581907713418467587e-01, 5.706865199552015877e-01, 2.979089564904203180e-01, 7.816114668051821202e-02, 1.789635166056027238e-01, 5.687760106133608051e-01, 9.755424642784412681e-01, 8.568925792526434909e-03, 4.691546622887252660e-01, 5.835683695451766573e-01, 2.972588446216935520e-01, 1.380546651400541280e-01, 9.750603154625411273e-01, 5.621557608091251046e-01, 1.900892100365494664e-01, 5.690122221857248919e-01, 4.578897368215534280e-01, 7.279063942771643037e-01, 4.551602641748820899e-01, 1.861788036815812952e-01, 5.686714805106161258e-02, 8.243900279041667112e-01, 8.817373355437423399e-01, 6.340725994024204448e-01, 3.076831259080611281e-01, 8.064261709631564967e-01, 2.045526169683162532e-01, 3.986601437861531094e-02, 9.497065842080321119e-01, 8.312474075305054111e-01, 4.071234674053402780e-01, 7.353168588684151352e-01, 2.698923712187324964e-01, 6.300948446607294029e-01, 1.015044819915750518e-01, 9.849242620593389175e-01, 3.970085110917861426e-01, 5.163766170569166203e-01, 2.417112983386419112e-01, 8.879563312039702172e-01, 2.626244247230332118e-01, 8.882346151731512762e-02, 5.170458819483891855e-01, 9.919603560123275710e-01, 2.980931922866359995e-01, 8.049408267062472255e-01, 8.253389763792479128e-01, 7.418282902168247261e-01, 4.286637768822654793e-01, 8.956873527714809269e-01, 8.619965937241823584e-01, 5.376316590271466023e-01, 1.239530614278315096e-01, 1.733085767361651139e-02, 5.370132449162058341e-01, 3.009773291441335541e-01, 5.440226405794394982e-01, 1.964149809790394774e-01, 5.739165921155979788e-01, 9.897272449125060767e-01, 4.480455235398700942e-01, 7.203664051306793992e-01, 5.134468792123315639e-01, 1.242160594691950060e-01, 7.912447733776675207e-01, 4.903485423970140207e-03, 9.053107804093103450e-01, 8.098148361592147904e-01, 8.455386456098634707e-01, 9.480507903496984135e-01, 3.725748439681085822e-01, 7.698368343954010706e-01, 5.065194284503475863e-01, 3.156944824787532022e-01, 6.340613104549828183e-01, 9.274625788112514924e-01, 9.489886095701952629e-01, 9.960495618117737315e-02, 4.128294812934176772e-01, 2.375372017168781158e-01, 5.529750561060764458e-02, 5.936017078832697136e-01, 5.812762931401561639e-01, 3.862664868666154661e-03, 8.724112484241480781e-01, 5.344432424755005684e-01, 4.273615571701083748e-01, 7.085790292215321529e-01, 7.366664488327284710e-01, 5.629723845074617872e-01, 4.397197385251452872e-01, 3.515751587569657666e-01, 6.575569145190650611e-01, 2.759253669410010046e-01, 4.332176084494206991e-01, 9.944661180522703647e-01, 1.851966557655454759e-01, 7.993819829576389591e-01, 3.283331378633959630e-01, 2.464047255182535423e-01, 8.253547521443254098e-01, 4.041950316597156534e-02, 4.791884955356228715e-01, 4.829030006204994563e-01, 1.747424314139618406e-01, 9.466361929124031960e-01, 8.264863662939000433e-01, 5.072557070913812360e-01, 4.200417436963397311e-01, 9.200756976628409189e-01, 6.289665174212342169e-01, 4.563039793295936564e-01, 2.033210921009265815e-01, 8.613152080100093810e-01, 3.488106024389962534e-01, 9.877876347957628145e-01, 6.998788567166175367e-01, 7.854489434430499406e-01, 8.834606129255865303e-01, 2.561048062954245919e-01, 6.273563842182833250e-01, 8.156514868626844050e-01, 2.674651668404348648e-02, 2.107959930057934639e-01, 8.163777533924014840e-01, 9.490336479028562700e-01, 9.850991299641301824e-01, 4.653668744219481845e-01, 4.014619594624170840e-01, 3.357096588218792532e-01, 7.246491871343733182e-01, 4.387127639607404372e-01, 8.138855696074596136e-01, 5.831960884737833473e-01, 8.107744521580230457e-02, 8.859919060545155822e-02, 3.193163581134884632e-01, 8.883006993773381321e-01, 5.327187688927411680e-01, 7.935937633251264334e-01, 5.073343004866550515e-02, 4.488192847593314161e-01, 2.078875460077652670e-01, 6.746811198783071450e-01, 3.523331728284045949e-01, 6.849351148219794405e-01, 7.838139262504375537e-01, 1.383863064686816913e-01, 9.482763930076720804e-02, 4.660446173888509874e-02, 1.967052151896865261e-02, 7.345842943433303351e-02, 9.948211780586975195e-01, 2.023190556861699518e-01, 1.658526392247885728e-01, 9.789047461518651794e-01, 1.965690678338686756e-02, 9.884192147787415061e-01, 6.653394160526904244e-03, 9.155250674442374503e-01, 7.652776163212169358e-01, 1.949492534256140053e-01, 6.821270529842030639e-01, 8.496313459442802474e-01, 9.957115351191999642e-01, 1.627203756939339108e-01, 4.799972217031741595e-01, 2.546187515734837370e-01, 2.038157633690831361e-01, 5.274746053550398717e-01, 8.917806538376726877e-01, 7.986553549913767425e-01, 5.248975245712590443e-01, 2.733293125206930907e-01, 7.282487693339478874e-01, 5.417116769452241520e-01, 3.681316308496168088e-01, 7.701305919860745863e-01, 6.902727247410793410e-02, 5.379048057780211334e-01, 7.415714664485045793e-01, 3.343218029883675280e-02, 8.514899846425408869e-01, 7.120423856208994984e-01, 9.160518300278612802e-01, 5.200826302614164343e-01, 7.953177443974587257e-01, 4.083898653942535928e-01, 3.885425655462922401e-01, 2.822212039274785145e-02, 5.528171158181228728e-01, 8.872867305176997954e-01, 4.971373096270595426e-01, 5.166192465933033828e-01, 2.010923586019850995e-01, 2.925099971216963413e-01, 6.431001049450353335e-01, 6.895352910253184087e-01, 1.822874958567798909e-01, 6.725574110498651059e-01, 5.810094283801923165e-01, 2.520814008572360918e-02, 2.435848789987015151e-01, 4.652854339589997945e-01, 1.171286931526553943e-01, 6.691790424378259994e-01, 1.355494688413971249e-01, 3.441875774801042009e-01, 8.814970208455297218e-01, 2.321818663207912692e-01, 7.674472824511286984e-01, 9.642677564033894644e-01, 2.170581557614146284e-01, 5.902513744496177273e-01, 9.455027034364185123e-01, 4.581780048159866392e-01, 2.007092744014934427e-01, 1.847296373989446572e-01, 8.217210959145534455e-01, 5.875568394410230627e-02, 3.388436532576434290e-01, 8.317419256687629270e-01, 1.976148290597894430e-01, 6.667852217651896174e-01, 1.586038856361087768e-01, 5.752469491581900796e-01, 5.900380274563534755e-01, 1.192019832458805217e-01, 9.424133110866979024e-01, 5.809887105358609860e-01, 3.763324298417668468e-01, 5.540570169155436542e-01, 9.792595664696481794e-01, 2.770045153477663225e-01, 8.655528211656576820e-01, 8.369462410376616868e-01, 9.201704464067920197e-01, 5.106487873306042591e-01, 9.475285987254217224e-01, 7.990389980743052289e-01, 7.338012357881668057e-01, 6.294309817847727473e-01, 7.413896867812073133e-01, 8.147653454658688732e-01, 3.698284808408556779e-01, 5.551132994246782415e-01, 5.689743883574652772e-01, 3.092191908768889830e-01, 1.559058340338305149e-01, 3.834295675167665451e-01, 5.125376673748178735e-01, 5.793827531100578243e-01, 9.701560325209328539e-01, 8.011247422178292554e-01, 9.678952335969112086e-01, 6.395770224109405266e-02, 1.533852820272506301e-02, 1.011554815611765690e-01, 5.783061605895432195e-02, 6.048675546182660234e-01, 6.815260196318680963e-01, 4.594329311712141428e-01, 3.905785116896661191e-01, 2.625320032945886450e-01, 2.571102285607066995e-01, 9.284291177587001842e-01, 2.506435020794052226e-01, 9.753200123908298824e-01, 6.366610465943790542e-01, 5.711029038386443712e-01, 5.508177000938613288e-01, 2.002733188190977121e-01, 7.728756794090552162e-01, 7.646789987626963214e-02, 2.134153271972015209e-01, 6.094840897231256216e-01, 1.405905807473458169e-01, 6.866628146451629888e-01, 7.351648705129766315e-01, 5.693976615703950639e-01, 4.431882859553744614e-01, 6.178703589305911681e-02, 4.940633872941280758e-01, 8.587797232659835078e-01, 5.572614679590985887e-01, 3.912878332325444436e-02, 4.759848203666013355e-01, 4.641932838852347309e-01, 9.821239248691002732e-01, 3.299661992157940094e-01, 6.166858668283784484e-01, 2.073801085221670115e-01, 6.435738079770791931e-01, 5.205379192160515256e-01, 8.081134627082455779e-01, 6.226890278215766461e-01, 6.196596653158407131e-01, 5.305620807097650715e-01, 4.443483956331679141e-01, 7.749129199928697087e-01, 9.150689424968010410e-01, 4.546013498302349243e-01, 5.024914094768547779e-01, 3.982800389362178284e-01, 2.245286667391933610e-01, 8.995965102283489667e-01, 4.748163247274613252e-01, 9.987538243495689416e-01, 4.749822810607366996e-01, 2.975254321881829617e-02, 7.808779401414573940e-01, 2.559545981911737211e-02, 2.085379940874319549e-01, 3.459435236142177073e-01, 3.413964571300343726e-02, 8.346055105437860666e-01, 5.329925976504055196e-01, 1.369669667534595681e-01, 7.760111128168687422e-01, 6.406514129792297840e-01, 7.373629448638362449e-01, 3.018530414503290960e-01, 4.982694896972150733e-01, 6.508103604459413161e-01, 5.469487747545134226e-01, 5.919216433342388006e-01, 4.860212468283050535e-01, 5.868268207024973648e-01, 6.063541554336213668e-01, 5.730874299050975340e-01, 5.771605701449020742e-01, 3.519370180013285387e-01, 1.164397960070144705e-01, 2.062556089775484658e-01, 7.815573942355839021e-01, 9.715025624239350677e-01, 2.775915895465302374e-01, 4.694999150735299637e-02, 4.928468029779302095e-01, 1.190037594995335263e-01, 2.446092473520221633e-01, 5.734773071891803298e-01, 9.483382685357081288e-01, 9.150900125329138046e-02, 9.839972468108743042e-02, 1.103152881840223642e-01, 1.543115008527332355e-01, 5.329975825175074094e-02, 8.316575204945935162e-01, 2.794747297272061615e-01, 1.392926902028149561e-01, 4.486213662748688158e-01, 9.840441863134565814e-01, 4.870872436009774931e-01, 1.544457039083352579e-01, 7.363969673346817402e-01, 2.555556479804631520e-01, 9.234517140658784484e-01, 2.104063858965607783e-02, 7.812919040801772352e-01, 9.855597029878278292e-02, 8.816720882066237941e-01, 4.220164839554822467e-01, 8.995969223572399809e-01, 6.388102286701221599e-01, 6.763714248111379890e-01, 1.696533786751516781e-01, 2.870504059510636807e-01, 9.383689175953943140e-01, 6.354656465329430182e-01, 3.366845223033197443e-01, 3.986311931097530348e-02, 6.235291259777592243e-01, 4.739378966470211285e-01, 6.186131441996919333e-01, 2.172937445953734281e-01, 5.650284194690635697e-01, 2.581223296294649083e-01, 8.646095598996678122e-01, 3.838855709325251359e-02, 2.383897629452643718e-01, 2.420450883936560715e-01, 6.587540813273214946e-01, 8.310784488548311755e-01, 4.328552069428844296e-01, 8.789523419782651059e-01, 7.743074668582816678e-01, 4.697850487258919405e-01, 7.272726231406090314e-01, 9.405044376684738028e-01, 4.988442175513689847e-01, 7.365826204705856473e-01, 2.632004432216959455e-01, 5.294060813485216288e-01, 1.565809562101650732e-01, 7.493058483336003661e-01, 4.996105454985527716e-01, 9.352538329454488375e-01, 9.928925165658276653e-01, 8.179950737724455134e-01, 9.941205740112843969e-01, 2.984431427264278014e-01, 4.021609562536710425e-01, 4.444418042313301731e-01, 3.262687414585465628e-01, 3.789164831314956738e-01, 9.356009843718651187e-01, 9.957984285129741764e-01, 7.625980540580152844e-01, 6.682905079231925560e-01, 8.812213835925294947e-02, 9.351664040641857190e-01, 9.478592486673161066e-02, 7.405746870757689004e-01, 9.313463352277966401e-01, 2.762560547303209990e-01, 7.136615619188017012e-01, 5.265776898990223165e-01, 5.407435270709118891e-01, 6.292323080121837720e-01, 8.296723977799496108e-01, 9.218755914664918949e-01, 8.629445240853804711e-01, 8.317754509740662439e-01, 8.814121497354560075e-01, 6.596234524306120450e-01, 6.140196859287193609e-01, 4.620630561510604140e-01, 5.461889868465453768e-01, 1.450462064826310918e-02, 1.496739677420859393e-01, 9.823754347768659523e-01, 7.619162801525334316e-01, 7.932977258454756431e-01, 8.432033733995965008e-01, 1.375248180020618993e-01, 1.537188425448816065e-01, 3.660556158828600637e-01, 5.731876573179772727e-01, 5.970824501946436769e-02, 2.512211903365413335e-02, 5.553848616408970651e-01, 6.693923078473662525e-01, 1.129163190918188731e-01, 6.650836736773656499e-01, 8.012082466076707321e-02, 3.724382086008364706e-02, 5.256127718357734846e-01, 4.037130925324874386e-01, 7.069785128842609456e-01, 7.791350887207983966e-01, 7.367062319272658089e-01, 6.106679572522543120e-01, 5.492591576182469515e-01, 9.553900538867581282e-01, 4.946288223499079595e-01, 9.218680405947600187e-01, 5.149567697642122299e-01, 6.112719007661362447e-01, 8.331853001390031599e-01, 5.618677205082811543e-02, 6.368228988539121893e-01, 3.706812235238201581e-01, 8.220342035106578127e-01, 9.314975966291074716e-01, 3.328849372266252660e-01, 5.818685962293613789e-01, 1.241293509829398817e-01, 1.575863059548874567e-01, 9.474949800383886123e-01, 3.824198125271154325e-01, 6.773872863955953116e-01, 6.745683023492496933e-01, 7.190836664348364549e-01, 8.582229522436063407e-01, 5.884178579950772869e-01, 6.482533784948318889e-01, 7.439080583935010482e-01, 8.286260716395099646e-01, 8.532756250049456925e-01, 5.783376927971027870e-01, 2.562287290242972193e-01, 4.644998687326462594e-01, 3.453803762716646242e-01, 7.980186054626375869e-02, 4.781316678128019748e-01, 5.831812262204837394e-01, 2.121349428100780254e-01, 4.950775767989311626e-01, 8.698651796650495038e-01, 9.065985473386789506e-01, 5.386443935750934164e-01, 3.439250229696668160e-01, 1.317326579172078682e-01, 2.547926320576573422e-01, 7.529423964535525426e-01, 9.506018801994076117e-02, 3.859006959175232954e-01, 7.573759253564761318e-01, 8.788991590290179401e-01, 8.990031189216773910e-01, 1.855035622311925758e-01, 8.164631238151522918e-01, 1.650940035756837121e-01, 1.440192447904748707e-01, 7.896188681879525717e-01, 3.181169648853838239e-01, 3.248113729121608895e-01, 6.242027546741455435e-01, 8.917840761035252806e-01, 6.682907016851039605e-01, 5.232845155188530217e-01, 2.978316972715668864e-01, 2.205469230029384886e-01, 8.855100778573243847e-02, 3.290596418130156686e-01, 9.466755467676799540e-01, 5.579728596659633277e-01, 1.323960221652240588e-01, 4.192792958470311082e-01, 1.085962411986780563e-01, 3.735318202377059804e-01, 4.137862389786278183e-01, 3.869617246151248469e-01, 6.954027338547914550e-01, 6.176110503291253329e-01, 5.899375364713841385e-01, 9.180810802574652651e-01, 3.829550538699862949e-01, 7.634274011053228115e-01, 5.029801556781645644e-01, 3.518972762469470550e-01, 2.253517565909890497e-01, 5.715442386938127672e-01, 6.468227357935373290e-01, 4.346291132382039124e-01, 9.219333236417283084e-01, 2.758611889769185810e-01, 8.597043381033521170e-01, 3.865101061441024721e-01, 1.467747576712455926e-01, 1.503121438965893952e-01, 7.704878467758373706e-01, 9.262129798438044626e-01, 8.474672039787315425e-01, 7.457202943886179769e-01, 9.136964992143469244e-01, 8.750564436520896772e-01, 1.787812542360643076e-01, 3.235088594613774182e-01, 6.844090586703472923e-01, 3.094513276870520992e-03, 2.939056927320683466e-01, 9.833485437925980344e-02, 3.950923334671652687e-01, 9.287362531616408790e-01, 4.426454077161728895e-01, 6.477510878497646507e-01, 1.168752452731341290e-01, 5.544920395418625469e-01, 6.315855408796754167e-02, 9.288476607488703740e-01, 5.957934125884345455e-01, 1.188241774761737840e-01, 1.262749380215803796e-01, 3.121439534141215999e-01, 5.592959349818243941e-01, 3.499447582288771619e-01, 4.890886912281616206e-01, 2.014428662261894820e-01, 2.251589898115047284e-01, 7.973045462640248049e-01, 7.500094520159050759e-02, 8.607895950424583331e-01, 7.235994072534964738e-01, 4.440914441878396346e-02, 8.919622623671269457e-01, 8.748159498578714222e-02, 8.825977306595020888e-01, 4.446852752694398503e-01, 1.562999179209323963e-01, 5.918590981830563758e-01, 1.574367070901074306e-01, 3.604215831157224215e-01, 4.529666861108995191e-01, 4.494493622678905065e-01, 2.476469000611047910e-01, 4.702848046553800287e-01, 5.034092368195399736e-01, 4.641445783199368291e-01, 3.796749897766620863e-01, 3.741068885886087991e-01, 2.680889310791990665e-01, 3.835103902192076118e-03, 6.832738263529110068e-01, 1.608942275528359167e-01, 9.542801451725818618e-02, 3.525475631387458564e-01, 7.393832103924666832e-01, 5.881577272759120900e-01, 2.059050905046859725e-01, 9.120151975700239166e-01, 8.740179014230003984e-01, 7.223083307137998510e-01, 6.849829323788396429e-02, 1.349575758794347713e-01, 4.107247805718814426e-01, 1.820653831456166827e-01, 8.083999040140954495e-01, 3.894624419751538946e-01, 4.318144380684329486e-01, 7.052649610896823962e-01, 3.090717800308251384e-02, 7.040831087948613565e-01, 7.000704207990432471e-01, 3.759262238801919231e-02, 2.004933220589657228e-01, 3.236799752436370636e-01, 9.323451573331863473e-01, 8.305197148145412323e-01, 3.627685516344185679e-01, 9.175666682243888150e-02, 5.498025344162749649e-03, 6.669593431763055635e-01, 9.615226544543035159e-01, 9.441818153438482630e-01, 1.632199648046220863e-01, 5.422153745099490552e-01, 6.651373971441462141e-01, 2.565095195779110160e-02, 4.560034395950247066e-01, 3.456086053731216023e-01, 2.216073480503892579e-01, 8.228190784456996809e-01, 1.797775539382509002e-01, 6.719719278497697790e-01, 7.035298330648181997e-01, 6.619323026425949497e-01, 2.082141630402317145e-01, 9.455246277662833210e-01, 8.777640690785041278e-01, 8.835576064096899440e-01, 6.128680244875115424e-01, 2.283373800581082191e-01, 6.253139460822895179e-01, 5.393494572560700862e-01, 4.816647119468172034e-01, 2.418303834004234265e-01, 4.210958848390802811e-01, 9.545728724064461712e-02, 3.760156330005154368e-01, 5.937694544061747903e-01, 8.498097029204040309e-01, 2.050325393337453506e-01, 2.170022207676639558e-01, 7.555457793152625667e-02, 8.581961533156777788e-01, 8.415339211258655583e-01, 9.959211888069434693e-01, 3.972251704769815817e-01, 6.975517638608172977e-01, 5.725132953620684084e-01, 6.496074870623426423e-02, 5.318684872327920088e-01, 1.760884385598649737e-01, 3.844167945759484617e-01, 4.981743762808844012e-01, 6.430540878012831474e-01, 8.761174972394548954e-02, 4.281344811778378667e-01, 6.854246978179252547e-01, 6.188465403444197710e-01, 5.922067005103536230e-01, 4.738198685155179946e-01, 2.148165858428230379e-02, 7.539297343347366454e-01, 3.607419342943954943e-01, 3.448466220668509052e-01, 1.098202387475151198e-01, 3.563367032005653190e-01, 6.817174084728594430e-01, 5.193033612238634467e-01, 2.166777495818093813e-01, 9.755032115924654468e-01, 5.925919738806511017e-01, 5.165711713434995023e-01, 9.732662081178278246e-01, 6.198432088514592708e-01, 5.181080310322977445e-01, 8.618357231945457109e-01, 6.372523893763819558e-01, 2.523972322907505061e-01, 4.603481450708990508e-04, 3.129825471625723443e-01, 8.361958185357780682e-01, 8.304935790602888668e-01, 2.048972050836187497e-01, 2.688140781867704998e-01, 8.268635511047986442e-02, 2.543437568504057222e-01, 9.581338127257443826e-01, 1.210355770617506238e-01, 3.214290935787573189e-01, 6.679634146645023474e-02, 9.272152564481532799e-01, 5.686347663876395453e-01, 8.433998165436784600e-02, 5.777703392024913231e-02, 4.337370481043037462e-01, 3.466722029269358463e-01, 9.705536948190831570e-01, 8.397710393409649754e-01, 6.266400023458180701e-01, 7.156059133388665838e-01, 8.807541248952227564e-01, 3.226177072176738547e-01, 2.012168550723306970e-01, 5.168257571954756324e-01, 7.030337865387416008e-01, 2.263925447323557050e-01, 5.208673350607342378e-01, 7.693717958632451115e-01, 2.964968744355775745e-02, 4.978460437824949736e-01, 2.064517365302714902e-01, 7.940116523506086654e-01, 3.525775606616892155e-01, 6.885519615002515526e-01, 2.025612970844300476e-01, 2.380296340059917248e-01, 9.231538938308163633e-01, 8.636975226076517576e-01, 4.365998348482442726e-01, 6.894652168124389968e-01, 5.731349814467265880e-01, 4.914897540093467465e-01, 3.452374712466969031e-01, 2.396159862172368427e-01, 5.345121372023420303e-01, 2.496192284561922492e-01, 1.447814999322938855e-02, 6.575832962664853731e-01, 9.190225254723664861e-02, 6.557625598654425181e-01, 1.996094698506758469e-01, 2.296287347422854008e-02, 3.944282337201427402e-01, 7.094324322635016389e-02, 1.924613489593438032e-01, 3.394614790640976820e-01, 6.804359587425869993e-01, 9.273115400066274105e-01, 5.444331740001157049e-01, 4.394693750005940758e-01, 4.265093439957310939e-01, 2.013959772410524873e-01, 1.774546286657134875e-01, 8.005958844664728957e-01, 8.606725631920960629e-01, 7.049745666922243581e-01, 5.496879917120240933e-01, 7.529286727238758692e-01, 4.808338308776257675e-01, 6.232830253308913049e-01, 1.611483954251589079e-01, 4.316635466026119694e-01, 5.369139321536295917e-01, 9.907961488573499009e-01, 5.978152471349258423e-01, 8.684619457629578765e-01, 3.997485998778276817e-01, 6.175591281093921747e-01, 3.259594003467104484e-01, 7.897134479290001119e-01, 3.307894439562661382e-01, 5.973643898997041957e-01, 7.058335656879477504e-02, 9.807313425235916204e-01, 3.319324045733982320e-01, 2.874897419694745146e-02, 9.219634357010955128e-01, 1.831131557461184167e-01, 5.058862802745600629e-01, 1.825513651547553406e-01, 6.280461986923532303e-01, 6.707158546295186596e-01, 1.127824389524011567e-01, 9.098794526289009088e-01, 4.985185559543475753e-01, 2.401922054117159311e-01, 1.554824168169178789e-01, 4.214870275028179680e-01, 4.900527762451774016e-01, 6.111189425380753049e-01, 1.777810623518072397e-01, 5.115244844418005421e-01, 5.953394491222316898e-01, 9.859879642927944499e-01, 6.745096981074938380e-01, 9.019180450011008432e-01, 6.308158283505590491e-01, 5.523964705724572211e-01, 3.264180901823985487e-02, 1.190012417398931682e-01, 5.434213870171058364e-02, 4.656693591932351550e-01, 9.967046931990353187e-01, 6.280148444739006575e-01, 6.688586235527064217e-01, 6.970251134727726283e-01, 3.390148089491755168e-01, 9.175545319181045434e-01, 3.254614249382118407e-01, 8.069035742656043286e-01, 2.501925575307101801e-01, 2.017131810205402553e-01, 6.824036275174338861e-01, 1.524786126534145303e-01, 6.855127445592800184e-01, 8.552830810376340631e-01, 3.261424446095895213e-02, 9.950001502236605067e-01, 8.777340471658418020e-01, 9.704622598081126261e-01, 7.185325493046231804e-01, 9.848529507577035158e-01, 3.951986654947062805e-01, 2.396630675124311605e-01, 9.466376025471719968e-01, 3.363895963895489616e-01, 3.374003731162955599e-01, 3.107280380178618628e-01, 9.575874820666849807e-01, 8.276021672034592491e-01, 3.152989626241772814e-02, 8.412159289509610893e-01, 5.461723979917907368e-01, 1.722651045269967263e-01, 8.808506600835788181e-01, 8.709452976842178840e-02, 2.467440728239834735e-01, 5.538872487306523151e-02, 7.822455988090984413e-02, 8.724098067910879273e-01, 1.541022407359248780e-01, 8.977794227851960684e-01, 6.033919014292654648e-01, 5.629304743558128932e-01, 1.470490822522557695e-01, 8.915950647590877853e-01, 2.437145953277745081e-01, 9.581121941145338550e-01, 1.900531951679308162e-01, 4.715434726495244533e-01, 6.704555321806081603e-01, 1.992975382676145935e-01, 4.066947604148130058e-01, 7.159242434285988388e-01, 7.224513186270217213e-01, 5.151060183243172386e-01, 1.926264429570822279e-01, 4.027412196532034749e-01, 1.287429378620018328e-01, 2.937347654463834945e-01, 2.641515542005358763e-01, 7.939527861921018281e-02, 6.102272396702005386e-01, 4.401266942304207230e-01, 6.363915213758282174e-01, 4.797525692056077706e-01, 5.879321350377324229e-02, 4.120892644397110560e-01, 2.899044307218411332e-01, 1.570669816481987668e-01, 3.013540694891213567e-01, 2.938745956304418816e-01, 3.227921503631404621e-01, 8.223594756567921271e-01, 4.833094050453468071e-01, 9.157169669319351057e-02, 8.280957327357489905e-01, 1.498191451111315076e-01, 5.242299595823802782e-01, 3.237097256729628003e-01, 8.394466965827351856e-03, 9.205713836110223092e-01, 7.193827714798928241e-01, 3.076734793547079572e-01, 3.898606954990262441e-01, 2.589008243405240828e-01, 8.948854373152725916e-01, 3.898980004962874224e-01, 7.562085822849227146e-01, 6.359909226713146291e-01, 2.477292198553258107e-01, 5.797147087501995921e-01, 2.237589390228653663e-01, 9.055381257027165232e-01, 5.631556852139730784e-01, 4.220759903595102114e-01, 9.833452875365010781e-01, 7.442921533446157367e-01, 9.272952435015858752e-01, 5.565951618481334018e-01, 1.033865792835690078e-01, 2.036124764808111831e-01, 2.413666537006425028e-01, 1.934097469527876478e-01, 7.406546625909831150e-01, 9.422193205942708261e-01, 9.565415243643672349e-01, 3.343897114497998424e-01, 2.354977904160394375e-01, 4.922750700602752660e-01, 6.003967289444293032e-01, 8.632081074659144759e-01, 8.129184062470989555e-03, 2.473786606371869423e-01, 3.397400172257693529e-01, 3.738840202454832840e-01, 2.328034586360222813e-01, 5.447465129217685664e-01, 7.641417098781959627e-01, 7.070637363262550767e-01, 6.216310173559314034e-01, 2.063882862400104670e-02, 7.698079516895820484e-01, 5.468830716202003339e-01, 3.090264034734400145e-01, 7.781226803397223168e-01, 8.427256315129968423e-01, 2.362759085298537370e-02, 3.986061890794668217e-01, 9.114163771022795180e-01, 1.086306342183619156e-01, 5.628754294693334437e-01, 4.453764776172541295e-01, 6.221685110685576392e-01, 3.064323837675564377e-02, 3.064947742197106084e-01, 1.680416766921236094e-01, 9.464196768444753660e-01, 9.314237706962646968e-01, 9.222484977701007614e-01, 5.178738208640878415e-01, 5.830343203374321881e-01, 8.231724896323244778e-01, 2.376100470602072676e-02, 3.729037438652953451e-01, 5.304776009790586055e-01, 4.891237527934098189e-02, 8.473245313381654320e-01, 4.928636828583166651e-01, 4.534529418545851787e-02, 7.351907810883915317e-01, 7.624315870424972497e-01, 3.330534891018901433e-01, 7.230209545137695759e-01, 9.150418076978675819e-01, 3.672909467796231509e-02, 1.022601691894565873e-01, 8.351166127576719056e-01, 9.773056926198547822e-01, 9.537851403713342169e-01, 9.712424147781772987e-02, 4.152133148947387969e-02, 3.732982221550247837e-01, 5.542242299864499344e-01, 2.736318921662032055e-01, 5.799813165151734839e-01, 3.329349527273126053e-01, 1.945426365735583307e-01, 5.963089207152155735e-01, 7.846416022642046517e-01, 7.319878220827025217e-01, 1.541862545122013872e-01, 8.119237221176596186e-01, 9.516813136984936250e-01, 7.614488082279097236e-01, 3.278388934812107025e-01, 9.130943465889264088e-01, 1.770844846267810024e-01, 6.212513368741668929e-01, 2.987438375131792334e-01, 5.511279563455594444e-01, 8.837125850016043227e-01, 8.744311287015438250e-01, 1.570057036956429286e-02, 8.529920747307540019e-01, 6.453334711952714020e-01, 1.654732241403571447e-01, 3.106592191419496052e-01, 2.012688253130157090e-01, 8.732651855540093377e-01, 8.298035171662909715e-01, 9.714972526882513781e-01, 1.179612431210728674e-01, 5.547160139372991905e-01, 3.025249558617960632e-01, 4.190553203548588179e-01, 6.188378195771923052e-01, 3.009759898361189512e-01, 3.218617758463914735e-01, 6.393597567192567388e-02, 3.586244431207608607e-01, 9.724800966209566910e-01, 1.200546761110486971e-01, 6.601288382927389398e-01, 9.548296633368638098e-01, 7.577880982970216020e-03, 9.589185689536717794e-01, 9.173559753923848925e-01, 6.421324935815785340e-01, 7.754939461970880021e-01, 1.931044141929963431e-01, 4.107271667742384835e-01, 9.586138265189005914e-01, 3.837002077648216103e-01, 1.724601524821500753e-01, 4.118715917820283678e-01, 2.444731338444221524e-01, 1.602947888729197301e-01, 3.168992020478237359e-01, 6.615009372950760858e-01, 1.426571417840276634e-01, 7.789085183525370493e-01, 7.241209370125148981e-01, 9.361721839152760127e-01, 4.823184960021888457e-01, 2.886507072240956373e-01, 9.182677066853143222e-01, 5.998263480811022452e-01, 3.535931924464593701e-01, 1.848876322526498139e-01, 6.719201223374496879e-01, 3.815731370516935173e-02, 8.447360249034577828e-01, 4.702827917819962789e-01, 7.694255240029639342e-01, 6.902052268821677883e-01, 8.607917506867777124e-01, 2.490854963999447336e-01, 4.721644938397677738e-01, 5.482455945277474596e-01, 3.857803927671660804e-01, 2.601736212018818661e-01, 2.950801498254987387e-01, 8.116664107886186752e-01, 7.313495708915283000e-01, 8.378711133151071078e-01, 6.656668636549412099e-01, 3.442927813861893383e-03, 1.611145348519391340e-01, 8.540398960399606665e-01, 5.133251861762004875e-01, 1.376870146226187586e-01, 7.296902142556587201e-01, 6.970728118448239474e-01, 1.768770111706539638e-01, 6.741775511729576342e-01, 1.927676536738323065e-01, 5.660430346542199009e-01, 4.474538805633898053e-01, 5.411402620247535156e-01, 1.571299681908585877e-01, 1.579178234271622627e-01, 9.747572146821756878e-01, 2.058395585152827389e-01, 7.630945900114934899e-01, 9.805978559846092457e-01, 1.388346057016088542e-01, 1.193445739110489956e-01, 9.998375841182518542e-01, 5.331188296695700268e-01, 4.530358478216071627e-01, 3.012940539007639695e-01, 7.663735229524347714e-01, 2.220091430837232982e-01, 8.527053529066276338e-01, 5.700134583593876592e-01, 9.963904854312555237e-02, 1.134816543688510829e-02, 5.194006504781145672e-01, 1.674807529316219012e-01, 3.849176792640197076e-01, 1.141337922078635714e-01, 2.978462932559541865e-01, 8.946712960233835776e-01, 2.738745772121521926e-01, 3.517824356195736191e-01, 4.139039049495621958e-01, 1.045795473173678214e-01, 7.968286828655732901e-01, 4.720088696379379778e-01, 1.349220889329127149e-01, 3.575500727023396830e-01, 3.416080771328369736e-01, 3.968468087076091333e-01, 8.903434311013320723e-01, 4.768098218637126795e-01, 1.795913543052691241e-01, 1.171690927860393749e-01, 4.232953051937087263e-01, 3.528759287202339334e-01, 7.356947583224698883e-01, 1.182111442027489190e-01, 2.143346792733126505e-01, 5.284709614458715787e-01, 8.261877408212759955e-01, 6.147609240520424123e-01, 5.151069977062339156e-01, 2.208305599537066788e-01, 1.636417124756349428e-02, 8.596566833431049659e-01, 2.849872254984802677e-01, 3.095885026280451036e-01, 1.379040323841276665e-02, 1.118399842342950173e-01, 2.226669259292733960e-01, 5.019428087604695943e-01, 3.125150079534017022e-01, 5.920037400231500380e-01, 5.724188869216926268e-01, 5.530781127568478173e-01, 5.374502845951709684e-01, 5.423365086726653628e-01, 7.129259423413076835e-01, 8.266716932992297373e-01, 4.920095422556798326e-01, 3.563195132065539172e-01, 9.829404278601643410e-03, 3.938852753161709019e-01, 3.912140776132690956e-01, 3.177466970805786772e-01, 4.178551505943208788e-01, 9.126650091523657027e-01, 7.811053491309286056e-02, 1.926541304725558693e-02, 6.590313730454172569e-01, 3.976552214784632722e-01, 6.150349466245542684e-01, 3.852311820647664753e-01, 1.269127985180729112e-01, 6.285072567596572402e-01, 2.879102306081277596e-01, 6.859311683560632700e-01, 9.330614285577101263e-01, 6.500300544010551018e-01, 8.021589980498357031e-01, 2.929926036343673545e-01, 6.897153715742525559e-01, 5.385275054470423095e-01, 7.860729480197910235e-02, 5.415636577934407336e-01, 1.157410206607120545e-01, 2.476656168709374661e-01, 4.688816890860236786e-01, 5.021074432193045611e-01, 8.313043140780103091e-01, 1.591768090079583031e-01, 3.323005460971329983e-01, 6.467790151921068431e-02, 9.285334863326555332e-02, 5.210803922760320894e-01, 2.515549372839484543e-01, 6.543890342298357421e-01, 1.888888776546799042e-01, 6.768061238607050445e-01, 5.367689229651323446e-01, 3.516671987596071691e-01, 7.788509091447313182e-01, 1.325847513614878959e-01, 7.214253156878538409e-01, 7.603884779923131276e-01, 6.643219291944764127e-01, 5.195720295383453591e-01, 6.597228053224638566e-01, 1.259780599774307230e-01, 1.185339689119998541e-01, 9.873057747834840248e-01, 1.918761591856499304e-02, 2.075970476122237507e-01, 9.137452214109295090e-01, 8.866674897188679960e-01, 1.670036156863312082e-01, 6.135254412924858736e-01, 8.645382915244566313e-02, 4.478594107955340409e-01, 3.759608684203430418e-01, 8.194612976571375995e-01, 4.646271095494281522e-01, 5.459315974281964134e-01, 7.024173866181036008e-01, 4.268683364862109197e-01, 2.901320057436284072e-01, 3.936699329095307842e-01, 8.698026591155429976e-01, 5.582963491156763824e-01, 6.038735010501307121e-01, 5.839772325997640845e-01, 6.668866777495436882e-01, 1.824728765957542020e-01, 9.419561475094729852e-01, 2.212315071892514695e-01, 4.530966444906360802e-01, 8.211181576904096335e-01, 1.701346468828531799e-01, 1.519748261408180867e-01, 9.872755683798730697e-01, 2.903335608495946074e-01, 5.220945599996944519e-01, 4.002061728386121509e-01, 9.191865359078283948e-01, 2.209136551964247241e-01, 6.397159428606549181e-01, 8.473133593202908376e-02, 9.865208787667194557e-01, 4.119828430067348224e-01, 9.848941008066778302e-01, 5.725270421801755827e-01, 3.904067252784252373e-01, 1.784118708695706657e-01, 8.685715572241192728e-02, 3.011454172315219946e-02, 3.928436848283241578e-01, 5.159708563925491376e-02, 7.339226152208599974e-01, 8.492728047794025903e-01, 4.752470490287955540e-01, 9.626021342692525629e-01, 8.786894599488039859e-01, 9.437089525329473566e-03, 9.971169917605404720e-02, 2.045062883224946504e-01, 6.969680876721731089e-01, 6.097951493250580723e-01, 3.233090998193306476e-01, 4.545916368800390073e-02, 6.064204794274279386e-01, 6.781238080355140863e-01, 9.165515642009456343e-01, 6.495969079009142888e-01, 7.429580260477705034e-01, 6.574577834708213997e-01, 7.734135585736113816e-01, 1.483768329932661778e-01, 7.501577336263610674e-01, 1.346427469833227919e-01, 4.781606462871239582e-01, 2.809156416095157649e-01, 8.595042905547660705e-01, 2.630198633168648881e-01, 5.992245685810537736e-01, 2.158713001986310442e-01, 6.475122778186145345e-01, 5.653722577282631612e-01, 4.001973626410883500e-01, 3.880086796223719547e-01, 4.701455403086360896e-01, 8.467276889354817815e-01, 2.790555530437477949e-01, 1.557805863139805069e-02, 5.245568492948385897e-01, 8.231675423468880481e-01, 1.169603719029723710e-01, 9.957603885108924358e-01, 4.730808729382646183e-01, 1.413632957158165449e-01, 9.636074961132451433e-01, 3.484709580995611344e-01, 8.761392083857745261e-01, 7.488134326652280404e-01, 7.690653821554140901e-01, 3.916510822736855579e-01, 2.834388679916524101e-01, 9.153337149343966361e-01, 4.529032520107302284e-01, 6.216851781898816709e-01, 2.045741147748374456e-01, 3.622193780813792729e-01, 8.380766897630504975e-01, 6.284449715090962840e-01, 4.082668636452762012e-01, 1.956441168817294740e-01, 9.360221072634248296e-01, 9.240343291779856694e-01, 6.323345387239504012e-01, 4.456229426802106319e-01, 7.276028496402696666e-01, 3.037402219426901806e-01, 2.177883582863289202e-01, 7.812890046540768019e-01, 2.909239987382190029e-01, 8.139932420455023854e-01, 9.192819278744738254e-01, 7.926867996694543228e-01, 6.655623861820041398e-01, 2.158669556692425495e-01, 5.809877421140121623e-01, 4.381297296859956725e-01, 6.354526000444032929e-01, 9.925336819368699715e-01, 6.651788324723254542e-01, 2.434721060490327160e-01, 3.464874349195959935e-01, 5.139403035891717403e-02, 3.235058790220503022e-01, 6.528751593242679285e-02, 5.746821653290207221e-01, 1.526028835526013205e-01, 6.237179125021256043e-01, 8.579090279295964461e-01, 4.653022224897203074e-01, 6.984446966932189582e-02, 9.651532756255025713e-01, 2.183158679497527177e-01, 3.761209728832892729e-02, 7.118258662431516948e-01, 6.758714444561729484e-02, 8.738036054299174182e-01, 2.171224828621614589e-01, 1.073731759627702675e-01, 1.319346275378606159e-01, 6.302032712561864702e-01, 4.833322133461892545e-02, 2.079413775038652101e-01, 9.319519209865961828e-01, 2.220208956473471718e-01, 4.087837438857511163e-01, 5.279361838589112788e-01, 7.097160789179199902e-01, 7.258769877952227223e-02, 6.146471178150522130e-01, 1.442171445263522485e-02, 9.672623081181558335e-01, 2.047940667233506540e-01, 6.287736779750034977e-01, 2.635262832684188150e-01, 1.794303290937293571e-02, 9.973455407724425292e-01, 5.807838232251557598e-01, 3.908570256391020493e-03, 8.393941843201745412e-01, 6.364901865210325083e-01, 3.084961380115187057e-01, 4.903464402003202549e-01, 5.464952410112340342e-01, 2.729957046623585626e-01, 7.861651625794412179e-02, 6.523628022054434039e-01, 7.691138565709380870e-02, 2.422812556707292786e-01, 4.003608637386176783e-01, 7.853845849139237112e-01, 2.561053817186113024e-01, 8.477769055323349789e-01, 4.923817140331533393e-01, 3.741150840408375977e-01, 4.496915224254319776e-01, 4.445004064396729238e-01, 7.322710129145107993e-01, 4.404690047729821131e-03, 5.979992472707946760e-01, 6.193851935523808638e-01, 1.497252264334995586e-01, 4.832045660494786454e-01, 1.398874741103942609e-01, 4.267833781368462476e-01, 1.670197342155504694e-01, 5.192724452337635910e-01, 2.013527329949800770e-01, 3.863001482479156978e-01, 3.565261084611204834e-01, 3.776547984172460848e-01, 6.852593920842232622e-01, 1.021373402150062004e-01, 9.043074398383470214e-02, 8.049103787178265579e-01, 3.123957901792445702e-01, 9.086130980203745988e-01, 9.353230067656925772e-01, 4.409160386053220804e-02, 6.338181967671919770e-01, 4.728325884551453084e-01, 3.638325540330008545e-01, 6.004075650425224620e-01, 2.875558005451263055e-01, 1.706129769391346862e-01, 1.569451457423375398e-02, 2.906497368484296448e-02, 6.552999961542881335e-01, 8.493391321742964628e-01, 9.132344935791394391e-01, 3.900709832554599688e-01, 8.944641023627387666e-01, 5.860729981342917005e-01, 8.160224316460722438e-01, 5.984394048533363542e-01, 3.599054655425094063e-01, 9.405508862399600822e-01, 5.448112912165160582e-01, 1.680138281987036686e-01, 7.573413447777235241e-01, 3.003943691672075200e-01, 1.129619252626201248e-01, 1.892943338965062325e-02, 5.296723218979813019e-01, 7.391904173219626673e-01, 6.722658912601172654e-01, 3.629183425121426110e-01, 2.844800619388932472e-01, 5.851607556704167129e-02, 5.261959798061467408e-01, 5.696187185110827000e-01, 1.138595762222596453e-01, 7.926904528739964206e-02, 8.299942694473601001e-01, 7.880643743119986055e-01, 4.348865962741842450e-01, 1.790649222763327497e-01, 5.935141693255737705e-01, 6.103009126875501567e-01, 7.089629941061174057e-01, 8.188733269553490901e-01, 8.949761163701424049e-01, 8.247451781517077807e-01, 9.450003393854229383e-01, 3.687333397960153997e-02, 4.957474511262704997e-02, 2.113018075343163771e-01, 8.898509346573362233e-01, 2.876224937364842971e-01, 7.612869254999921065e-01, 2.415049961590757799e-01, 4.406588011066402411e-01, 8.422666950223293147e-01, 9.225033468605399189e-01, 3.748928273141663992e-01, 9.361781658703421938e-01, 7.739410359666698547e-01, 5.272035921966260474e-01, 3.005145302468721358e-01, 5.237703375067219724e-01, 5.845090979913405427e-01, 4.891359602976722010e-01, 3.743986042251987723e-01, 1.044967404260149779e-01, 7.615647811543365675e-01, 8.022761055428978549e-01, 6.936280594820954937e-01, 5.528711851857215365e-03, 9.858749453628594672e-01, 6.053720133419623339e-01, 9.345370702065937396e-02, 6.332820154268141433e-02, 9.538604306861802051e-01, 4.564241494800018728e-01, 1.168465322984651861e-01, 6.076501424064159051e-01, 8.499066110960414866e-01, 5.164669195172725269e-01, 8.538075924669771277e-01, 1.082097305145147959e-01, 3.557462899461353301e-01, 7.214417606214160728e-01, 7.826364278484558845e-01, 2.833679018885475881e-02, 7.005164289072699502e-01, 5.677751059649371879e-01, 7.542649099559466108e-02, 3.921779513825137675e-01, 4.385580246242988256e-01, 8.263963617833202102e-01, 1.151056806448088610e-01, 7.234801177810538109e-01, 8.669342657336753799e-01, 2.375782939618536205e-01, 8.308245027989757947e-02, 8.738292865289520872e-01, 9.051801251693818440e-01, 1.953873421639501784e-01, 6.750389860869238090e-01, 4.455539028517377376e-01, 2.970289088029097191e-01, 7.764597783516332674e-01, 7.972613484763957370e-01, 5.598380009900846277e-01, 6.472748147970973642e-01, 3.524761732368633105e-01, 2.332809550490414407e-04, 7.955020746915879570e-01, 3.198527797572957576e-01, 6.518056584952400812e-01, 2.098881361380984245e-01, 7.222782983871599283e-02, 2.381463504713712542e-01, 2.587953755854133231e-01, 8.916687067993503968e-01, 3.280386451912153389e-01, 2.992362564507964895e-01, 6.621540507215568638e-01, 5.176557238377618164e-01, 7.158047610519326920e-01, 4.647332116097047106e-02, 3.241887349770443405e-02, 1.955692512228869306e-01, 9.756581146776807101e-01, 4.340960594779668114e-01, 3.508920089265334941e-01, 6.671172976969285129e-01, 3.627534232247369705e-01, 8.433156024984828081e-01, 5.274707735935967312e-01, 6.086058895144095260e-01, 8.674323706772467668e-01, 3.469301565889661987e-01, 5.232021859253112306e-02, 7.568612094450989369e-01, 4.824091727928054296e-01, 6.496861955355724971e-01, 4.645291849958246844e-01, 2.786608363543074951e-02, 3.327730474260361809e-02, 7.282262324552793431e-02, 5.961662819958536419e-01, 1.648706317676484068e-01, 6.812775147239845397e-02, 7.326322035316739090e-01, 4.718809896695488337e-01, 5.605694777794777428e-01, 1.688253990314844133e-01, 4.900840788734128206e-01, 6.990860452427617722e-02, 4.182877580282001184e-01, 4.572352445238499485e-01, 3.122364350938011124e-01, 5.236490655707146669e-01, 1.700097195469239125e-02, 9.527998986203874976e-01, 6.724105613398883019e-01, 7.769931343621575559e-01, 2.764529083574585044e-02, 4.165166350811798091e-01, 4.773430685871954404e-01, 6.577954975609436872e-01, 1.572428278819671121e-01, 1.855712478646978913e-01, 7.103523198809135186e-01, 9.713883829118060698e-01, 9.103261062970707806e-01, 1.516926217525104426e-01, 7.726788858359936452e-01, 4.039876075882318229e-01, 2.855740396822240568e-01, 5.259465874769444493e-01, 5.818422030196598316e-01, 2.343308111289605922e-01, 1.953344396245021708e-01, 9.859334784496333048e-01, 2.548686784586108312e-01, 1.271617193788247557e-01, 7.144669088846654637e-01, 1.959862100536091320e-02, 2.618008272834407846e-01, 9.732763569693564376e-01, 9.937385411857512230e-01, 4.835446512758109772e-01, 3.479558803743006412e-01, 2.557335830676461530e-01, 3.619907079036789876e-01, 8.369021677253382085e-01, 2.207095476543888823e-01, 7.320741857404365616e-02, 8.343148893562030155e-01, 5.888465439129692003e-01, 5.843142502802668448e-01, 1.543319609895607014e-01, 9.430407746064854019e-03, 3.928776417436468660e-01, 1.422567180906372242e-01, 7.168374336185751039e-02, 5.803800378219241551e-01, 8.370865761419706841e-01, 4.580715936232486185e-01, 7.784539300481264634e-01, 7.946441001861621611e-01, 3.114593034173189223e-01, 9.183936251014196417e-01, 6.875454909285748650e-01, 7.555523446969873991e-01, 9.660398542683654721e-01, 1.940078064671831581e-01, 2.357909148014112055e-01, 3.550628552730654142e-01, 6.085210543175504361e-01, 7.091048052936946844e-01, 6.447603604674144728e-01, 4.189944145565388522e-02, 2.956800574865796061e-01, 9.081186332448339948e-01, 6.014380003620115600e-01, 8.117825328674220797e-01, 4.370807300973636456e-01, 6.643739616185831975e-01, 9.704538955452183258e-01, 4.504821517574454925e-01, 7.885507892470153823e-01, 5.240628964733297090e-01, 6.698305167631739276e-02, 2.365130827267847846e-01, 9.639823757179140085e-01, 3.992667976823907616e-01, 9.033153402183990988e-02, 3.318101946601360597e-01, 5.560755539526527347e-01, 9.984700039125259385e-01, 6.622628861574842984e-01, 5.359514437085350913e-01, 8.169394402462936133e-01, 5.328445837979202127e-01, 2.886212045924484992e-01, 8.975801933578004821e-01, 7.501868886034661621e-01, 8.517184135475869278e-01, 3.227776938922727323e-01, 2.419493533932762785e-01, 3.122681249220425614e-02, 9.205024551915078623e-01, 4.952766179467030586e-03, 5.471296059377069865e-01, 7.732952422359296030e-01, 9.418299500573265037e-01, 5.789471038679238069e-01, 8.330552561636502817e-01, 5.150432728053496723e-01, 8.677374481245819782e-01, 3.386167582692446026e-02, 4.007501155330128739e-01, 9.295218844182931983e-01, 7.966161776834980168e-01, 3.565667140830298121e-01, 3.603359122379466983e-01, 4.470612861632893842e-01, 9.305799672012777801e-01, 8.759653856889622059e-01, 2.254197409072667135e-01, 2.018449172946485404e-01, 1.936887349671700259e-02, 7.999996692233800610e-01, 7.335355606138774798e-01, 8.810072063246988661e-01, 5.830007242188003369e-01, 4.547663152773162021e-01, 6.521383086983488786e-01, 3.483535426614829400e-01, 5.462378102977676342e-01, 1.238631454197499093e-01, 4.991080595565473010e-01, 1.007913004869689932e-01, 1.879962637584569052e-01, 5.800363177668629300e-01, 4.660097377544871744e-01, 1.211678750949235772e-01, 5.042806258727775548e-01, 5.579744031540113669e-01, 5.285606760588041908e-01, 5.657133947486896464e-01, 2.884375105624638613e-01, 3.806976963293611238e-01, 1.322646342736071290e-01, 5.384996585935828417e-01, 3.509228447797514971e-01, 2.664841425852745305e-01, 3.848873903747108693e-01, 3.643764536650049291e-01, 1.614145824899997639e-01, 6.375632494298534292e-01, 6.461742439413454830e-01, 9.466923441444327070e-01, 7.668147110491262408e-01, 8.962217375211747883e-02, 3.394375950970806022e-01, 8.177144332230590340e-01, 7.251929303962649787e-01, 9.155095701902178362e-01, 1.620033269853776714e-01, 1.111639499086561206e-01, 5.859868859572319177e-01, 3.674675190801707236e-01, 2.162095689542644084e-01, 3.017282324432800644e-01, 4.646181045694354195e-01, 6.785981106967712284e-01, 6.519299186550709946e-01, 8.061901532400922443e-01, 2.976550230793105767e-01, 7.822600521946390106e-01, 6.018835998625364780e-01, 3.679891143476223675e-02, 9.574341044781582433e-01, 1.495533852044888257e-01, 6.727837343991542873e-01, 7.048646322378137041e-01, 4.607803584561290799e-01, 8.935833952230926025e-01, 2.591976190864149765e-01, 4.926039856793942850e-01, 6.109572522837908304e-01, 5.066767117309590729e-01, 8.244991348215977567e-01, 6.190982828340738653e-01, 3.018805700822900784e-01, 5.273623700543628168e-01, 9.444123688494022728e-01, 8.828260052702792127e-01, 7.080155777268722916e-01, 2.802081676271288568e-01, 9.009039441713271312e-01, 3.336441765456870656e-01, 2.278121675540687452e-01, 3.829457248090223365e-01, 3.604203440682364201e-01, 8.064959238678905962e-01, 6.027949438138395788e-01, 3.798618324629233212e-01, 3.417896426537707644e-01, 7.162989443437314252e-01, 5.545732942687234823e-01, 6.617306428462392809e-01, 6.542389103930995597e-01, 5.195019592143359510e-01, 2.807706048035013002e-01, 6.050220482179166082e-01, 1.309461320682575869e-01, 5.626084797195789362e-03, 5.924318861694587435e-01, 5.836698197280764111e-01, 3.735071396399686772e-01, 5.776796629130506178e-01, 7.031971937484520208e-01, 1.052677940404090073e-01, 6.410441871993929897e-02, 8.107411835344930928e-01, 3.485927372351959042e-01, 3.372577930919531397e-01, 1.770864366446205374e-01, 2.455878039421500458e-01, 2.341159267784100884e-01, 6.053318225185713719e-02, 9.317486081976944501e-02, 3.047791152339936471e-01, 1.599180434808641915e-01, 6.014756292440102126e-01, 1.909670259152256300e-01, 6.751201186700438450e-01, 5.243225015797722266e-01, 7.850926638850357353e-01, 9.323359400387738471e-01, 7.502233950340418955e-01, 5.759958097447954728e-01, 9.692117826143266113e-01, 7.598159245058988542e-01, 5.255342107062185297e-01, 8.672524360666102883e-01, 1.866708427453845909e-01, 8.017457832139740503e-01, 7.096980245874221493e-01, 7.907160702105722194e-01, 5.479089131853457362e-01, 2.559007733524538628e-02, 6.741052596804818497e-01, 9.199673233374693337e-01, 4.203385157246811721e-01, 7.936470983814827296e-01, 8.205433281578123905e-01, 2.887516923719041229e-01, 9.525501178721544893e-01, 9.940858658145718119e-01, 5.419982456028759055e-01, 1.122140382800124320e-01, 4.878488656335092100e-01, 7.460735367918821526e-01, 6.628315999148751136e-02, 5.077377115870163049e-01, 8.770812742792369332e-02, 9.279769434570716014e-01, 7.406251999203798952e-01, 6.414810622785614980e-01, 5.264242622371122504e-01, 8.033318211982032331e-01, 2.884559132831986950e-01, 2.326927814439543329e-01, 2.904633317905078171e-01, 4.797096585074496766e-01, 5.866192253569073589e-01, 8.453047988856005057e-01, 9.349500966718163886e-01, 9.607104217842039606e-01, 4.400053767471932553e-01, 6.446220544891806403e-02, 4.609091375330161000e-01, 5.986811727264795824e-01, 7.600389116441002013e-01, 8.208297523807006613e-02, 3.889708094703470120e-02, 2.626139670292381226e-02, 2.174320478546195104e-02, 9.672792882219126420e-02, 5.086961755787230421e-01, 9.435087731150172408e-01, 8.875324134470803372e-01, 1.057050734765553751e-01, 7.529290699364836470e-02, 4.331216902940047131e-01, 8.135486813422576624e-01, 7.988922906633216933e-04, 4.613437416807145697e-01, 3.592607524926333395e-02, 6.705295514687911740e-02, 8.203238096099589871e-01, 7.388162097688143470e-01, 3.499987822693396700e-01, 7.348772039797821787e-01, 9.175870927711979874e-01, 9.174043499213275776e-01, 5.543094266076539212e-01, 2.004631674566500765e-01, 9.168042871578955255e-01, 2.586219046610386263e-01, 3.322697341424629691e-01, 6.249121169848794732e-01, 8.737097762958774272e-01, 2.286093881065079103e-01, 5.791906984367202194e-01, 4.651351591181813183e-01, 8.467779338522111177e-01, 8.658817196266975769e-01, 7.943589470812317810e-01, 6.677076606165993633e-01, 1.130267404991255331e-01, 7.466271846172511939e-01, 8.773195855191175951e-01, 4.735778780503770991e-01, 2.312856010897098857e-01, 2.536257696181616339e-01, 1.635486535638506211e-01, 9.946840641210266121e-01, 5.671405202665678047e-01, 4.404322548480396615e-01, 6.807576334143697894e-01, 6.390142146066709605e-01, 1.243450056437854362e-01, 2.334523704595370674e-01, 4.875827564963884364e-01, 7.036484205408868320e-01, 2.703090513935451633e-01, 2.578491941944183741e-01, 8.498131643550871361e-02, 7.718831347775915175e-01, 2.585858212205076612e-01, 9.273668801364928216e-01, 3.104966895100149671e-01, 3.953648479171174013e-01, 3.104375387336045788e-01, 4.966842134805751208e-01, 1.657634809352471761e-01, 7.721307862256612253e-01, 9.987339722928282315e-01, 8.274794784106642709e-04, 7.210484115298427810e-01, 1.669911966994079289e-01, 7.605264915646590129e-01, 1.051879171459042112e-01, 7.659722405187728844e-01, 8.618813160110120331e-01, 8.439027304184163469e-01, 5.822775878785636516e-01, 8.878696203846537793e-01, 5.417511005339202823e-01, 6.721907321961905213e-01, 2.275823394065433769e-01, 2.353284907897675859e-01, 9.953996610547890533e-01, 5.383330180648570051e-01, 3.804222651146645373e-01, 7.998084369284632622e-01, 6.622840605995772290e-01, 4.741020053661074707e-01, 7.059770539017696800e-01, 5.140670314317535849e-01, 4.421298358929428574e-01, 4.949103560292978932e-01, 1.715196547385099690e-01, 5.684438955609172339e-01, 6.033997152353637317e-01, 3.564789160029747661e-01, 3.530637332326383993e-01, 2.885871818797344779e-01, 5.885385447138529180e-01, 2.676149054000345751e-01, 2.849714838442981568e-01, 6.249623945557899463e-01, 5.719998567976557480e-01, 4.111750138410941169e-02, 7.183560126965441439e-01, 6.838823471632742290e-01, 1.489077542801565679e-01, 2.222835796642254336e-02, 4.322012370886632038e-01, 4.186341849083614619e-01, 3.518266031055875542e-01, 9.932047169780260365e-01, 7.257084968387639279e-01, 9.919745899933791744e-01, 6.324602959661369539e-01, 1.510178388400750249e-01, 8.242882181613149228e-01, 8.344412918465661244e-01, 2.870727181117939120e-01, 9.441701871701890791e-02, 4.707060470701465715e-01, 8.305009737952269155e-01, 3.421232902116541630e-01, 8.744994961734592342e-01, 2.236839211217163115e-01, 8.375407365823702710e-01, 8.506628128506604769e-01, 9.210455569520404895e-01, 4.528101864592476433e-01, 5.436910597828484848e-01, 9.459744763663113787e-01, 2.712306590266669662e-02, 3.770009252753766527e-01, 5.363108957298519108e-01, 2.124349069649251465e-01, 7.428264790756474722e-01, 1.551951699113034433e-01, 4.882390678474202161e-01, 2.546279104564040385e-01, 9.615679100567625648e-01, 6.694400542283109566e-03, 7.370074036818715646e-01, 8.477042378380398313e-01, 5.496861339096097421e-01, 8.184083813850779876e-01, 5.642016153032028969e-01, 3.777363067794621276e-01, 4.936132409803154486e-01, 8.147694779911406338e-01, 2.867603773658969346e-01, 6.875205655996359244e-01, 2.553038862486475269e-01, 7.227874061226996494e-01, 6.428429045708853318e-01, 7.348177181865207519e-01, 2.006261308119088316e-01, 4.777633430709066209e-01, 6.736993973190583684e-01, 7.513733790031770221e-01, 9.916015629725503100e-01, 8.819364988526503524e-01, 2.306889045394613369e-01, 4.901977299432749291e-01, 5.993930098840913878e-01, 3.351988617195064690e-01, 3.757973825498157061e-01, 9.141467310780750088e-02, 7.852862919673737618e-01, 6.811394406682442781e-01, 2.693755964503615763e-01, 4.051990923239896514e-01, 3.544562344713675806e-03, 1.252631458219469474e-01, 2.121932121362192503e-01, 3.604791541886783746e-01, 9.379902545912431611e-02, 6.419564251297914526e-01, 5.127853733990768159e-01, 7.049308247691580265e-01, 7.923693480206790707e-02, 4.302726726856903050e-01, 6.840225069845297101e-01, 7.505388387432948560e-01, 2.241861448605912410e-01, 7.871180917408148181e-01, 8.430529641210254832e-02, 3.868598513924999538e-01, 7.333459701021539934e-03, 8.464386536382202675e-02, 8.256993652706937636e-01, 2.624222601960769508e-01, 5.670183133026898137e-01, 4.876654931305847707e-01, 6.490058521669683778e-02, 8.316269322577937162e-01, 7.684859967156272287e-01, 4.541028095306460788e-01, 2.536036239483826504e-01, 6.589202906855316788e-02, 4.995893772640975228e-01, 3.106218375295510259e-01, 4.920779681849967724e-01, 8.105378043055307957e-01, 7.604394796393518785e-01, 2.162555826568603179e-01, 5.726266370755941221e-02, 2.167149631919689234e-01, 1.833041853501997664e-01, 2.832140054244015048e-01, 1.520215829520571438e-01, 6.357624739481475551e-01, 7.686803308469657148e-02, 4.717812219460250645e-01, 6.204222628131194073e-01, 1.752301396103191633e-01, 1.930148933595368099e-01, 6.523773136159906061e-01, 3.969122192329482823e-01, 4.561662097158961093e-01, 1.821108854582916825e-01, 8.560253175816974203e-01, 4.995329336554064220e-02, 2.091767699489734955e-01, 7.981593938495962215e-01, 8.682558049323670923e-01, 4.652520501862204005e-01, 4.850809334283547880e-01, 2.985448980362431781e-01, 3.064126236929224367e-01, 8.848902763631075752e-01, 4.613361094216842928e-01, 3.310947087151559082e-02, 3.261614518365822390e-01, 2.130715343685799235e-01, 5.299275755547449007e-01, 4.204688824101463496e-01, 8.268397645253510175e-01, 9.531719470925940074e-01, 2.259284895743350896e-01, 1.785380201464323302e-01, 5.718534802384417359e-01, 4.696813416833621468e-02, 4.712045496850022497e-01, 4.380283321586019296e-01, 8.634224705601735161e-01, 1.777220972046273662e-01, 4.918051796006750465e-01, 4.853909682356593036e-01, 3.912333440006526275e-01, 5.543398691131536937e-01, 2.780889335821612462e-02, 5.826621187766627408e-01, 8.966508147364660175e-02, 2.911903745077246697e-01, 5.042653494454525376e-01, 8.062804245731146624e-01, 6.982723588691079897e-01, 4.034596286357335915e-01, 7.287097046720657501e-01, 4.877469516649890480e-01, 3.422860492772030749e-01, 2.216872528960728284e-02, 7.533825394011014476e-01, 1.182312361513534471e-01, 9.153058508004550120e-01, 9.049946799061792113e-02, 5.602936426172461237e-01, 9.796071759873165030e-01, 2.661228437695778437e-01, 5.067487472423719552e-01, 8.261663030786283723e-01, 8.576587594613148680e-01, 1.875059134971314712e-01, 3.241839666582349566e-01, 8.816101190209852945e-01, 9.904845605557970056e-02, 3.579589248050680031e-03, 5.387719266984725142e-01, 3.755832037969257797e-01, 6.519723243850914507e-01, 9.878583712714200660e-01, 3.071278415562412323e-01, 4.793250948923217236e-01, 8.544610143035574756e-01, 1.746316378845395034e-01, 8.480358660762348233e-01, 7.929837474599982228e-01, 6.087524056132955774e-01, 2.351756242285320819e-01, 7.728044626381094240e-01, 1.915283195647904946e-01, 7.336112149125533222e-01, 4.552548660838506844e-02, 7.242057567276816155e-02, 4.619950184260630532e-01, 5.310273640539716622e-01, 2.284086932078877030e-01, 8.910069372267761523e-01, 1.467245553759611854e-01, 6.771155805008177708e-02, 4.915180992911156177e-01, 1.161784972692592177e-03, 2.245031435898163785e-01, 6.614707219387878645e-01, 7.399290967301128674e-01, 2.143259032046269386e-01, 5.906672738939411360e-03, 1.741646275125909860e-01, 3.745035146621201183e-01, 3.059198215692213729e-01, 3.789464141459324420e-01, 8.516942883188085567e-01, 1.986901761048372739e-01, 9.351747925173399256e-01, 1.981836227287952223e-01, 7.524693376583586890e-02, 9.545069955661555916e-02, 6.408804879052697467e-01, 4.810506623573281848e-01, 3.328936800949432173e-02, 8.335696959369428560e-01, 5.075935802237062644e-01, 3.258954599845081956e-01, 3.697646329316411906e-01, 6.691163669236412925e-01, 4.678770227557929040e-01, 1.021688154827211370e-01, 8.664356724213888583e-01, 9.511105766107056381e-01, 2.187751522999182852e-01, 2.925470150728185989e-02, 7.627793166247576195e-01, 9.648518259421270393e-01, 1.262770693953348955e-01, 5.872776405976597447e-01, 2.340118651081792844e-01, 1.764141364600787798e-01, 2.657389144374809886e-01, 3.582025753137593194e-01, 1.492101273174739617e-01, 7.417590418565297439e-01, 9.562667714438479738e-01, 4.836936967582738944e-01, 8.316221834827223214e-01, 1.299735273520099266e-01, 1.380147373296218838e-01, 6.096830608974999066e-01, 1.618312715474201635e-01, 4.600654852390304583e-01, 2.421646829687713887e-01, 7.172314060405471370e-01, 4.814280749109786095e-01, 7.787364813678788744e-01, 3.765357878375852896e-01, 6.901622906530976431e-01, 4.186120853591956403e-01, 4.308009293489680758e-01, 7.030395550791234127e-01, 2.467424900176950001e-02, 4.859573145409041839e-01, 4.372860383652429350e-01, 1.175803380654993902e-01, 7.849123143141373271e-01, 3.474324443982594324e-01, 3.547046693916536819e-01, 6.006642815450367046e-01, 1.133000382606807466e-01, 9.531226638931191708e-01, 4.906753033810549169e-01, 8.216761931021990817e-01, 6.260017838923571665e-01, 1.677255706967817339e-01, 3.423460173937443174e-01, 2.067911285544624667e-01, 1.383337124949701180e-01, 1.802562644348077725e-01, 5.075483167336421880e-02, 6.521476673419192016e-01, 3.897074665427109341e-01, 7.362867511698247824e-01, 2.826889455374779203e-01, 9.742458299482596729e-02, 4.938333280617657195e-01, 9.083463271206477785e-01, 5.540708860166498884e-01, 9.372643099808197764e-01, 3.297299891672708649e-01, 7.996974887126772069e-01, 1.035650677556613219e-01, 7.420424275618686671e-01, 9.292479141180568503e-01, 7.297716606735681066e-02, 6.043737300628149178e-02, 9.611514210833065341e-01, 7.411791176409563420e-01, 2.899460625853662044e-01, 2.174585453024712178e-01, 9.529022315053911063e-01, 2.030508860122060000e-01, 9.407677046184624858e-01, 5.012947624404473501e-01, 1.997335822269712680e-01, 1.762189512884833331e-01, 6.097921735824946010e-01, 3.895666133802290765e-01, 3.480256063299378561e-02, 9.174952882511115959e-01, 2.807913536326260284e-01, 1.055762523852969426e-01, 6.175279927736494479e-01, 8.154007005315614398e-01, 9.811006556521884026e-02, 1.310529409856517058e-01, 5.289832923664669062e-01, 9.101505077053433368e-01, 7.556229381437614689e-01, 8.900750807378988716e-01, 2.553377026521962412e-01, 2.851470826775467926e-01, 5.411528913022416454e-01, 6.704874385988041086e-01, 5.846137634278165685e-01, 7.059731775654874975e-01, 9.604280487188948667e-01, 5.753425408961805321e-01, 9.106588077375983303e-01, 5.447411805885666869e-01, 6.850818775529278204e-01, 1.462226210782725799e-01, 6.842640768436870635e-01, 3.172361030674956117e-01, 1.370435105342905635e-01, 7.112643038013752306e-02, 3.054583145613328221e-01, 9.108249990399082119e-01, 9.081446582237381326e-01, 3.036532919499689287e-01, 5.822726823801749330e-02, 9.896214899397252074e-01, 5.029757710889557476e-01, 1.682871126392569971e-01, 4.943440999688286652e-01, 9.646411101183129944e-01, 8.272039419076975264e-01, 9.385457678173240170e-01, 2.429877094840253715e-01, 3.749885367314292894e-01, 2.909869253915917664e-01, 4.590520008575088573e-01, 7.728494307837180388e-01, 3.917800333696792592e-01, 9.699412457145385469e-01, 2.332333138442349019e-01, 1.529020445799145200e-01, 9.394177630315919680e-01, 6.362536637475320056e-01, 6.002034578435995194e-01, 3.751452048310591758e-01, 1.205333949196071841e-01, 8.144853929026603101e-01, 5.505167079384506307e-02, 3.471895195782896404e-01, 7.380165521278214680e-02, 3.854449029502886592e-01, 1.783407236337463952e-01, 2.286581241440581169e-01, 9.856434697298434022e-01, 3.455834868710393470e-01, 3.028425013615553829e-01, 2.184098474511117494e-01, 3.408352380588249853e-01, 3.126061999152316973e-01, 9.100286660261858174e-01, 5.998943351372729715e-01, 6.469229965300339336e-01, 8.955197857274739270e-01, 1.804689835969269882e-03, 8.319112507049981620e-01, 9.394174307133698609e-02, 5.769839895987866063e-01, 4.196140925487336082e-01, 4.453882835968908105e-01, 2.514204375395422408e-01, 4.404830477879428385e-01, 8.364937381417026918e-01, 7.829972351522248575e-01, 5.794095759380536448e-01, 1.003833625336907204e-01, 7.582715001058466520e-01, 6.610016312285251772e-01, 2.524984419335165459e-02, 2.776822971736795376e-01, 7.005949163081499620e-01, 8.505677677957512728e-01, 7.958983073186838286e-01, 3.664921200049797712e-02, 3.569624598305330965e-01, 2.188328327462126799e-01, 9.869041965417408857e-01, 8.711102163787469710e-01, 1.576784819680185079e-01, 5.691424482672635676e-01, 8.115183136829349220e-01, 7.591906579465106386e-01, 8.814571839149154542e-01, 1.104448979201110292e-01, 8.745459337605840933e-01, 1.636139146579473902e-01, 1.276166317106500192e-01, 1.068805689545764270e-01, 6.398696257577519697e-01, 4.976086640876916517e-02, 3.870656657750670693e-01, 8.015321423926269340e-02, 1.099618115749831926e-01, 8.360140276947093385e-01, 5.553111261076525418e-01, 2.045468864861370306e-02, 3.269551488543889217e-01, 2.396999210661113489e-01, 4.926881906152306145e-01, 3.437088769258124232e-01, 4.209190082217934559e-01, 6.606619607700001673e-01, 5.894489985779638452e-01, 4.028176164223870592e-01, 9.208865172780723585e-01, 6.497179546350115853e-01, 7.039858546820835228e-01, 5.451727156153207687e-01, 9.082873960577786399e-01, 2.686042746034569273e-01, 9.333383411994888856e-01, 7.584728755438152614e-01, 7.343551646593701743e-02, 7.901664520785034451e-01, 5.793737882575698828e-02, 2.203078065434149746e-02, 5.531757891680834094e-01, 1.313463645021322179e-01, 6.921002900115492684e-01, 6.020224238106045567e-01, 8.901489050679213255e-01, 3.543616604935169723e-01, 3.016615184384912052e-01, 5.981503000525540958e-01, 9.707915390759815910e-01, 3.691682018039885854e-02, 5.109683838880305640e-01, 9.463572867933268684e-01, 5.044940082476853105e-01, 7.535107820294129066e-01, 7.265223305770862616e-01, 9.338260394748414406e-01, 9.149564668515980381e-01, 9.371530927456650506e-01, 8.805941957530289965e-01, 1.166783341408101221e-01, 9.220166266304503644e-01, 7.960191929594225835e-01, 2.668231879931366457e-01, 2.960527462311021152e-01, 5.153294797936958105e-01, 2.071110675599877604e-01, 8.777025464909217201e-01, 8.036565599577399910e-01, 7.724576448723491362e-01, 5.405171614979211725e-01, 4.506741622512390189e-01, 3.873123313669637469e-01, 4.087812492037073975e-01, 3.551661801965462217e-01, 4.291584957867864980e-01, 1.847762617938725205e-01, 4.198102658361888562e-01, 8.513067359533236234e-01, 2.551299241116963823e-01, 8.838363386917198472e-01, 8.356613141249414900e-01, 7.802942977215983344e-02, 7.825803914895244906e-02, 8.766784804650928908e-01, 9.037523748104575594e-01, 9.529659237683258954e-01, 4.829266666542025299e-01, 3.796845208532678706e-01, 6.262020966212611395e-01, 1.721681090536696934e-01, 2.939276278462641390e-01, 1.413780699956651218e-02, 8.850230801928329338e-01, 1.934416646933816430e-01, 2.856040277061327459e-01, 9.535031922267807047e-01, 2.113587173991782198e-01, 9.945708978283012147e-01, 9.726369758007288868e-02, 1.656050207702914334e-01, 1.664907547530999066e-01, 5.183831791923996235e-01, 1.492914669807828554e-01, 7.099938846021450756e-01, 1.069478033767580494e-01, 9.404389824399034259e-01, 5.894171092501504505e-01, 9.801700770075485458e-01, 2.754036118399297295e-01, 1.922343281849043795e-01, 2.387145044170717600e-01, 2.622482669580574743e-01, 1.078393645814811411e-02, 4.679679614083477324e-01, 1.693482825974986644e-02, 2.826989086553129416e-01, 4.141309579490843329e-01, 4.566706396266509982e-01, 6.257149424500489943e-01, 3.137297992073958541e-01, 8.584349312847058266e-01, 1.513870537064090638e-01, 4.156518277816112494e-01, 9.321053666798936321e-01, 7.117110033032332250e-01, 6.443111463292225949e-01, 9.399746530972676872e-01, 5.026032613935818016e-01, 9.551550966359041439e-01, 7.236095025888397148e-01, 3.773656515130184297e-01, 1.942932101858090288e-01, 6.797625037265644377e-01, 6.741796117348317630e-01, 6.702567735906069801e-01, 2.577557484041897995e-02, 2.690807539348312183e-01, 4.052121931406071353e-01, 3.068494566531658752e-01, 6.165002756313120447e-01, 2.675630704444091901e-01, 7.052636479464253760e-01, 5.738789381972695391e-01, 2.275145518627614118e-04, 5.608839968598174908e-01, 5.944383918296713976e-02, 9.320257837281530344e-01, 2.013192508362494637e-01, 6.066491029448926042e-01, 6.956731031916080221e-01, 6.445572724102907047e-01, 9.881031179475350257e-01, 1.125440949670401120e-01, 1.999996774478858541e-01, 9.751684864154044341e-01, 8.574624539812236712e-01, 9.476776998410798569e-01, 9.702568537466981224e-01, 4.256043974954985543e-01, 2.085201541734179320e-01, 7.646112660202719624e-01, 2.382675447501832744e-01, 3.166048210511893668e-01, 8.547191425580243085e-02, 7.555331245591213607e-01, 6.630590035638290747e-01, 5.794144037682844584e-01, 6.595874894206328332e-01, 1.277048471568013044e-01, 7.070837720350324762e-01, 9.545676379099261588e-01, 9.006942079324785633e-01, 2.104525764404167054e-01, 5.326788305304511750e-01, 3.977789838055573179e-01, 3.717126572154862973e-01, 3.010230006342797318e-02, 1.632469791136975656e-01, 1.506393349042954299e-01, 9.421216158192204926e-01, 2.061024189726925748e-01, 2.789318050103210544e-01, 3.846591165405861129e-02, 5.616296310268256153e-01, 8.833825128213382838e-01, 2.290881487094228730e-01, 5.482897722964275022e-01, 7.463979975979568859e-01, 6.090983535700357221e-01, 1.817300189081721973e-01, 4.445646794457526751e-01, 7.680328861621604775e-01, 4.021985716616941486e-01, 9.137078874786566107e-01, 6.036609186065001742e-01, 6.472536040576808425e-01, 9.176853771416848549e-02, 1.840529975527575024e-01, 4.489065381116369435e-01, 2.821385825064791075e-01, 9.931909393953537724e-02, 9.282768854531564529e-02, 7.234691694155873654e-01, 2.010896911782212026e-01, 8.260810114339638410e-01, 9.355073785838520228e-01, 1.848823567574913590e-02, 4.025737125370735803e-01, 7.522621484130896929e-01, 2.390886779469435508e-01, 6.053727194214783003e-01, 2.688281707974571333e-01, 3.008780945110420268e-01, 1.626284385376434716e-01, 6.749222219618156160e-01, 1.148280768930143303e-03, 9.127395768279555899e-01, 7.294302629300932761e-01, 5.833843728104144422e-01, 5.798499736956825856e-01, 8.577687237980592405e-01, 1.418912771083348234e-01, 4.812743203069346463e-03, 2.200950646882702255e-01, 5.215427942070337552e-01, 5.560108205915398338e-01, 9.848965357045361690e-01, 8.923855879454607514e-04, 7.717217026042989814e-02, 7.778561197971127772e-01, 5.150206405593440451e-01, 7.845199073588980665e-02, 6.091608741435926566e-01, 9.924411895661086058e-01, 3.353044125167372602e-01, 1.475038765672429808e-01, 5.329985492747235654e-01, 1.672834723204651430e-01, 5.558630129926495078e-01, 7.379602775448033114e-01, 2.565746128764628264e-01, 3.835115028013268840e-03, 7.785358800191851669e-01, 5.297595807863068051e-01, 5.852880328869203286e-01, 9.449965479402738788e-01, 7.104605648298559784e-01, 8.866643004851719467e-02, 7.280070845555174364e-01, 8.482369566301891650e-01, 6.298791385443301971e-01, 9.467979011183104143e-01, 1.977754412382010107e-01, 6.423280814010344786e-01, 5.613008408460863352e-01, 3.804331430489871907e-02, 8.467346969344975438e-01, 3.800216165283898384e-01, 5.516094509085706782e-02, 4.607358660541100437e-01, 7.879715941438730775e-01, 3.991253072338580288e-01, 5.833678450677045602e-01, 1.009411749340450859e-01, 1.043895391926884103e-01, 4.667570366420549233e-01, 4.568316993771113776e-01, 9.151642823070538224e-01, 1.745052574115084632e-01, 1.984864188723832745e-01, 2.953977401896871191e-01, 1.769004923807234939e-02, 3.690167001406907676e-01, 2.396713374110794881e-01, 6.052662307492363558e-01, 5.543540366073902437e-01, 1.731543579673716290e-02, 7.454105179149173033e-01, 9.296759393469533617e-01, 6.657286369107502377e-01, 2.257900795804204108e-01, 8.174995571826323415e-01, 2.310483181073101910e-01, 6.612602863193178804e-01, 3.530378080865118062e-01, 9.201835787914574016e-01, 7.087801900505837915e-01, 3.055367610010997770e-02, 4.761510639688093516e-01, 2.367577488158414400e-01, 9.930808561402623136e-01, 3.048623444080849620e-01, 6.739264027489058062e-01, 1.813806641994232249e-01, 4.258400999171753631e-01, 4.036805326515054970e-01, 3.739586973862982777e-01, 3.565594067134737477e-01, 7.667121364876042788e-01, 1.861909143040128556e-01, 5.202683757267705378e-01, 3.655950312386959111e-01, 5.580783303785685767e-01, 8.934997799902270055e-01, 3.439628806629065894e-01, 8.212787035480380027e-01, 2.375490620545283316e-01, 1.527506548465418224e-02, 1.738693299420967509e-01, 5.996455134378728680e-01, 6.034687399231865035e-01, 5.792622935891684754e-01, 9.714486630892097407e-01, 1.664419057140389402e-01, 5.318897807397908739e-01, 8.127886473744981854e-01, 6.413139039961168741e-01, 5.968952322992886472e-01, 8.600248649087003372e-01, 7.433680516623242251e-02, 5.940378900350836711e-01, 2.196623916474379698e-02, 4.820115369990546350e-01, 7.371464997710991396e-01, 4.434231824657618448e-01, 4.730792577861516746e-01, 9.469026053308640112e-01, 9.482689135566073624e-01, 2.123555477329964747e-01, 7.234323243895361966e-01, 4.035522396729883665e-01, 2.899033981451399899e-01, 1.368315085059693681e-01, 1.663829496055192203e-01, 9.280271287837739136e-01, 3.751348889700031330e-01, 2.834128990419209071e-01, 3.751725105429004614e-02, 3.287896081365785372e-01, 3.064098021641559755e-01, 5.523172663931564808e-01, 1.241866883107331232e-01, 3.451020495481106343e-01, 9.957417758295318277e-01, 4.288137158254621828e-01, 1.155813450287723892e-01, 6.005366097035493844e-01, 1.290109086195538601e-01, 5.322442807553944277e-01, 8.589972672011781940e-01, 1.613914969167289382e-01, 2.108850050815934962e-01, 7.900556168170863591e-01, 2.317749978130790867e-01, 5.825787018255562666e-01, 2.713410331463543823e-01, 8.929192266810802581e-01, 7.971280433760985495e-01, 9.782596279079440738e-01, 9.671167203987312000e-01, 3.782477441655479611e-01, 1.644515264320997872e-01, 4.405429463153932579e-01, 8.262842185102470260e-01, 4.217414347077886871e-01, 2.512619042160523994e-02, 4.879024900786086416e-01, 5.711030301937043419e-01, 3.096699600319952617e-01, 2.897458747713210769e-01, 3.128372855717818646e-01, 9.194859339899036366e-01, 1.186463759739837809e-01, 7.921942325935941165e-01, 1.859571764779905101e-01, 6.954852136035560850e-01, 1.447175614195095605e-01, 9.261019722150467537e-01, 5.943564687236002619e-03, 7.962989425556263878e-01, 4.870061329052696730e-01, 8.489353565578527938e-01, 8.783543880687199046e-01, 8.233660764219312700e-01, 4.596938297638241688e-01, 1.916312392065314674e-01, 1.508674866567077943e-01, 7.210885485662001937e-01, 7.548441620402330798e-01, 6.016301011893443462e-01, 5.377465735192397261e-02, 4.030239926997133404e-01, 3.516825684619879211e-01, 1.362259379628365796e-01, 2.357532866066732735e-01, 4.980457469580183982e-01, 2.522459232101623150e-01, 8.590138413467797163e-01, 8.184603944299784217e-01, 4.909811026139057066e-01, 2.115240721782810362e-01, 2.011582335427188895e-01, 4.316574454682557405e-01, 5.401252102577047687e-01, 5.270408104506584257e-01, 9.684100089520472632e-02, 6.753837918480332103e-01, 9.749003038574266533e-02, 9.252108973867132491e-01, 5.633726492894698401e-01, 1.529887386709527508e-02, 2.908874680845648375e-01, 8.005403941562541092e-01, 2.138727889092898460e-01, 2.661119476956529395e-01, 1.200713402739973512e-01, 1.095094122626762700e-01, 5.455678122779055172e-01, 2.887345717199408801e-01, 9.404276349222561171e-01, 9.180337732154707497e-01, 5.700999494892290409e-01, 4.268503543975999404e-01, 3.527805903782276209e-01, 8.645602387926794030e-01, 3.707351501405276584e-01, 8.720786275173127988e-01, 2.055290584025781450e-02, 3.223902823815361640e-01, 3.182008022852640394e-01, 3.054161448245427124e-01, 9.489471820247828981e-01, 3.023113417651987489e-01, 9.417488060648220305e-01, 5.117012445667983300e-01, 8.290133904113011765e-01, 2.844798741806197073e-01, 4.638475898076163118e-01, 3.461530473090233540e-01, 9.314823563246038551e-01, 7.754464625415263823e-01, 4.357740689445659399e-01, 3.807213301452760934e-01, 9.949771957541411194e-01, 5.632933710337842959e-01, 6.309642173237791640e-01, 9.752166639911429291e-01, 3.610578560389310909e-01, 8.271154321287220723e-01, 2.331034905672771940e-01, 7.300989014292593726e-01, 9.692845503925043849e-01, 1.581314792145101511e-01, 1.333862069600035560e-01, 2.368266080336454971e-01, 3.528258682399426083e-01, 6.225378486810412282e-01, 2.461738845589452884e-01, 4.699075585617365491e-01, 4.864884725203949545e-01, 9.818194044743765170e-02, 6.604782443132820591e-01, 2.645729230734766846e-01, 4.177690296219637167e-01, 8.479934683259677808e-01, 5.363048166170224507e-01, 3.518074080107682078e-01, 2.377075395700867233e-01, 7.671677095441334915e-01, 8.896521245414303891e-01, 2.363841219038481656e-01, 2.567770461765034665e-02, 2.445924319441929451e-01, 9.035298677045821014e-01, 5.235770702021741441e-01, 4.005224130218211220e-01, 1.397176188856086299e-01, 5.795655243656332445e-01, 7.458544898572719295e-02, 7.762115254664971875e-01, 2.999166529718237939e-01, 1.954769130643700392e-01, 3.734131549897604652e-01, 9.871780279983480844e-01, 9.747734711148577924e-01, 6.454024518901427254e-02, 3.159893044421613895e-01, 5.947912956226319992e-03, 6.508384298221894237e-01, 8.591550188963675838e-01, 8.032630113526441074e-01, 4.758200107901622289e-01, 8.945771833173536691e-02, 9.034417224945174851e-01, 1.270971151625279738e-01, 4.794578453233244719e-01, 8.745174610652829694e-02, 1.487715563475751068e-01, 2.881529090889992095e-01, 8.704506143182584310e-01, 5.382906322989835513e-01, 4.496579645015160720e-01, 7.116844382075383502e-01, 7.946388782218080094e-01, 8.542487266760325770e-01, 7.524961355200631141e-01, 5.070964601850507236e-01, 4.519001562922376758e-01, 3.960388646871872975e-01, 5.169073829361113814e-01, 7.774357096086739194e-01, 4.751362746025628581e-01, 3.548239159207554061e-01, 8.928680983801706716e-01, 8.514418678799156037e-01, 1.586786484357250449e-01, 1.619357154142960289e-02, 6.186666400358522555e-01, 3.932863264321684316e-01, 4.400289947960120962e-01, 4.570112384327539856e-01, 4.137987761189961811e-01, 9.504253436984198833e-02, 2.435287625214538065e-01, 5.133948578928736461e-01, 8.604360737553092831e-01, 9.374435248730585979e-01, 5.845844811648909234e-02, 6.062135215547798106e-01, 7.859885729088537110e-01, 7.228849351514916588e-01, 8.802544660204656424e-01, 1.603314473653106864e-01, 8.709549024079539237e-01, 8.988940495012104348e-01, 1.747866399928514891e-01, 3.035352855251470250e-01, 4.909617510006181185e-03, 6.196593437133410959e-02, 1.481968556786650848e-01, 8.762963948795335911e-01, 5.690514633351007046e-01, 7.440726902077077209e-02, 2.379361526514021941e-01, 6.340019477737928177e-01, 5.394980241364526474e-01, 9.925416470284652570e-01, 3.559319961908905539e-01, 9.273011616225368403e-01, 6.104184776815613223e-02, 1.291674222102374425e-01, 2.719988942293950496e-01, 5.504475683390743779e-01, 2.786966426570464672e-01, 5.826009704549595103e-01, 8.675024666639695736e-01, 7.560548912617806039e-01, 3.122856861999166456e-01, 6.014922689851037729e-01, 7.231332551102332973e-01, 7.344362501786787234e-02, 5.207687258018327547e-01, 1.637768750242927229e-01, 3.625476372483118492e-01, 1.180552176318058061e-01, 1.742895301717625189e-01, 9.698892319731634570e-01, 6.312484325740785884e-01, 3.280298955381901194e-01, 6.209582854560848908e-01, 2.633256542349129981e-01, 1.962328490616493948e-01, 5.226008403961321935e-01, 2.510873122911267408e-01, 5.705316833402881427e-01, 2.743217811878885803e-01, 6.363651053833154769e-01, 7.528131703054475876e-01, 6.736548737588913260e-01, 6.356786081661175425e-01, 2.694345290861328568e-01, 9.937454807247280142e-01, 7.109247449143307751e-01, 4.342690188794564032e-01, 1.949969417427012061e-02, 3.392005382074902431e-01, 9.531787680045008537e-01, 4.044039513231832972e-01, 3.555115147720517288e-01, 5.147515806849166653e-01, 6.435403894399827074e-01, 1.295247412276280541e-01, 7.310209102434179762e-01, 3.725524855932347834e-01, 6.125289910626287027e-01, 7.705925494978895784e-01, 7.235224348653167548e-01, 2.886875118908169280e-02, 5.981113465754932523e-01, 8.991514426569912066e-01, 4.815710461711798507e-01, 1.624653060210520250e-01, 7.879157234581225522e-01, 2.791503834309113086e-01, 6.641974861642240269e-01, 4.165056998738125849e-02, 1.237593859251943512e-01, 2.396535319967466049e-01, 6.148910406427249287e-01, 2.601270032665314869e-01, 9.355985646448372606e-01, 3.941914809760050376e-01, 2.437323917897280534e-01, 2.552817146120589520e-02, 5.394142317396052322e-01, 6.147591702967094562e-01, 2.783171637293970768e-01, 3.454858327783308369e-01, 9.124292343913892323e-01, 6.140858738810091033e-01, 1.186553649057653370e-02, 5.825550472670955049e-01, 9.367379987279845777e-01, 1.455254705767836942e-01, 2.541843267531426198e-01, 8.779580056145612765e-01, 1.587910468669189445e-01, 9.897862551772602657e-01, 6.067494072803442107e-01, 1.244630245596679563e-01, 9.836571805752419850e-01, 5.235145273859807130e-02, 2.293095839071979114e-02, 5.719317442575220234e-01, 4.276574739691951788e-01, 9.282169151380417205e-01, 1.338776934070855518e-01, 1.270006500594068610e-01, 8.248244395394321860e-01, 5.087147409134432641e-01, 4.835221739021081100e-01, 9.654006570754136707e-01, 1.251404771572817154e-02, 5.045829240465694587e-01, 3.055999143148415143e-01, 4.948988063796673220e-01, 5.889356057638580610e-01, 1.927513035066049651e-01, 2.937511392621228734e-01, 5.461882906753843248e-01, 4.018581653481566596e-01, 6.116924368030490777e-01, 6.854231125034397909e-01, 1.436739540343782151e-01, 7.869776733829452198e-01, 3.516726256233305981e-02, 1.923870468197760308e-01, 8.934809853028645721e-01, 7.090121576347749865e-01, 5.092689725932353362e-01, 9.830596955862664910e-01, 9.318827483133823586e-01, 5.945030011818021043e-01, 2.505044758166503627e-01, 2.047455333110596021e-01, 3.506702324057748288e-01, 7.590360426075902778e-01, 6.191578388852746473e-01, 5.628458063418790847e-01, 3.820203760184964215e-01, 2.263950200316282857e-01, 1.057368128607947821e-01, 2.571430406312990025e-01, 5.223955695228544860e-01, 6.976013335479509525e-01, 3.653556533775811355e-01, 6.507211247381262664e-01, 6.976488956969053579e-01, 2.152164742390404728e-01, 7.063572183914588187e-01, 6.712255947623019248e-01, 5.077964897501082708e-01, 5.437963164567305441e-02, 4.072886707564485897e-01, 4.001453443748549943e-01, 1.680153203605933288e-01, 8.754370526655219642e-02, 8.762605841355564085e-02, 1.782666032647156895e-01, 8.136109054372051563e-01, 4.313637512826009046e-01, 9.429044922917076965e-01, 6.038390751326261352e-02, 1.794738915306918203e-01, 5.520115284611192275e-01, 5.087487259808981532e-01, 8.039285410702379231e-02, 9.176515285839597080e-01, 3.748179944318061341e-01, 7.010980245006411815e-01, 5.944095894746546753e-03, 4.962025952970146037e-01, 1.184594990572177542e-01, 3.007841802011105847e-01, 5.926876274350268980e-01, 5.007499979625014142e-01, 8.639291742999176682e-01, 8.242403945264753506e-02, 4.502184408331882381e-01, 3.090001856116693646e-01, 5.493550629052408318e-01, 7.467342036157853524e-02, 8.278850935086352614e-01, 8.436082538457589930e-01, 5.807179821884705939e-01, 5.620044446632302959e-01, 6.867406076460327302e-01, 8.519363837494134395e-02, 5.289536171328736991e-01, 2.410534955198819981e-02, 7.063643524729534828e-02, 4.359996196661935497e-01, 8.809696781337609250e-01, 6.861945172634797974e-02, 1.132941959737122223e-01, 8.914057974050363375e-01, 8.655411768726949395e-01, 6.680032187605901006e-01, 3.300694994038911867e-01, 5.866800372773829375e-01, 4.348009051684106341e-01, 3.359861921533679463e-01, 4.668172201365838880e-01, 9.197923125767414332e-01, 4.241979383691891758e-01, 2.506209965655914473e-01, 1.960131396990623109e-01, 8.427708315061501754e-01, 9.800859534185563104e-01, 2.836543655502175021e-01, 5.369391567831893752e-01, 9.967957833608239726e-01, 1.534666043593009288e-01, 9.181297407105856179e-01, 9.000681506263886744e-01, 1.146897709422623896e-01, 1.021179863175766395e-01, 5.105209034737318019e-01, 6.660212883260895333e-01, 9.993922323446264855e-01, 9.289048326958104784e-01, 6.374571280988995392e-01, 5.316959785741812716e-01, 8.464975925631595954e-01, 6.808737553585587632e-01, 4.104268520497922346e-02, 4.035964447762043217e-01, 1.208328903280831215e-02, 2.192942524220867911e-02, 2.133824022806199427e-01, 8.493471818339252133e-01, 4.426836279204533486e-01, 3.044227180735492033e-01, 9.632399618215570225e-01, 3.939358683977235709e-02, 9.311297465281098695e-01, 9.637046415271054434e-01, 9.795560335402987429e-01, 8.133705090820197992e-01, 5.505148087436624316e-01, 4.433721406946432575e-01, 8.228650703225733887e-01, 2.484922021985631613e-01, 6.132444317237404352e-01, 5.005424501093969081e-01, 7.813692812401203114e-02, 2.877775448503757660e-01, 8.172479263671044158e-01, 6.895780422971589108e-01, 2.610145167765726693e-01, 4.332076186403119311e-01, 4.340705603375234478e-01, 4.759944579160660383e-01, 7.241778627543534741e-01, 7.274844187250780747e-01, 6.838848737065985617e-01, 9.448547911560979395e-01, 9.004107908350371670e-01, 1.765720034266626826e-01, 8.183098347931070382e-01, 7.000141210887261822e-01, 9.094381709571348615e-01, 5.440667639966760838e-01, 9.684721306194731261e-01, 6.965178750910649974e-01, 6.496395489762412101e-01, 8.259334565937614947e-02, 2.465091068445105227e-01, 2.577736588982869684e-02, 4.739317905666070030e-01, 9.596773759436741935e-01, 3.539878341863706979e-01, 3.152043734785043294e-01, 4.030855611229752222e-01, 6.786154215854283134e-01, 5.516786559242343735e-01, 5.331092276552690246e-01, 5.457145904260397168e-02, 4.286154314515527308e-01, 2.589597258505350608e-01, 5.400702879656948951e-01, 9.814403394090526200e-01, 9.458187729854460324e-01, 4.858925288927364861e-01, 8.138263060389645531e-01, 4.997287643161484327e-01, 1.834215304631029164e-01, 3.189618048432324438e-01, 7.300695919966200265e-01, 3.676410006693083682e-02, 9.033543833994561734e-02, 7.348489298748217546e-01, 8.979382539606011182e-01, 2.198182811634266653e-01, 4.378761909196952629e-01, 2.975331696387176206e-01, 2.477303184062112640e-01, 1.238173576017277816e-01, 9.852731486816308504e-01, 6.587134081165519905e-01, 8.128872899936783192e-01, 1.305205143132628642e-01, 5.452194519796538241e-02, 6.349988820096807984e-01, 9.994328753877161908e-01, 6.793629736412577502e-01, 5.621736247475607184e-01, 7.769408423374780659e-01, 4.406984799035161271e-01, 6.657964359840821134e-01, 5.918102416617734285e-01, 2.301825485441559849e-01, 8.507133508393462940e-01, 4.089565618908454492e-01, 7.385075159843054737e-02, 9.261073221877317296e-01, 7.123298671242893620e-01, 7.689934138145237963e-01, 1.514065648759034266e-01, 2.989607126527083492e-01, 5.158127169617382490e-01, 8.784465537066206142e-01, 5.106911202920987325e-01, 7.158799696119843015e-01, 1.858919011174873515e-01, 8.869445625389305032e-01, 7.594732144730661494e-01, 8.705829690066760884e-01, 2.379410104151824523e-01, 9.705259759494009320e-01, 3.633657709858370555e-02, 5.200015324090428992e-01, 8.889231801050853088e-01, 8.617655246804871716e-01, 4.288543180736539839e-02, 6.991677307433861177e-01, 5.782881506385012527e-01, 9.568066914132297707e-02, 1.835428175981035082e-01, 6.528254658619248030e-02, 2.145128782304883686e-05, 4.701734528643314315e-01, 5.563502150163842641e-01, 6.117359934984152314e-01, 2.367515623425891780e-01, 3.477012314048499309e-01, 2.460663508846976655e-01, 5.519534265037250309e-01, 7.454931636496228142e-01, 6.921462783146949960e-01, 5.274322633681012285e-01, 2.111794656031094897e-01, 5.433758085920956660e-01, 3.566761596604599016e-01, 2.862187626806216856e-01, 7.698164052121120315e-01, 7.915852800227811681e-01, 6.988417638526889242e-01, 4.924746080332297882e-01, 8.597314180786939930e-02, 9.538325718049849300e-01, 8.384705274322491464e-01, 9.277931844186206867e-01, 5.603948025637366381e-01, 9.165979204779166611e-01, 6.550334972937856826e-01, 5.131756352471761318e-01, 2.490814836512738051e-01, 1.108498540400775223e-01, 4.781908103315049008e-01, 5.900168725607234377e-01, 1.239939499213470464e-01, 2.890150319346322938e-01, 7.818926424237399031e-01, 8.256233318775657581e-01, 1.208635557237051072e-01, 9.602092812528835175e-01, 1.406661813321152532e-01, 5.085645532462973462e-01, 6.673104258264874744e-01, 3.719602006063606470e-01, 7.984790493337350359e-01, 2.578626406892634559e-01, 2.454717961940077256e-02, 7.793446944465003412e-01, 3.794393592279519112e-01, 3.350626158853000636e-01, 4.426534066445514393e-01, 1.896931775133490483e-01, 9.093429299601399896e-01, 7.727162563692822062e-01, 5.143581378482325883e-01, 8.927516541947193573e-01, 8.247705716873128257e-01, 3.194866173236360907e-01, 4.683115384383190749e-01, 6.306187153348260521e-01, 9.338293250799609702e-01, 5.242565746923155690e-01, 2.842477463805997417e-01, 1.190244991495700011e-01, 4.476820647330322367e-01, 4.245297241804779631e-01, 4.983161988657902608e-01, 6.591074375355802095e-01, 4.390319187219359209e-01, 1.771719557700877079e-01, 6.780286057798500243e-01, 9.517928465681558814e-01, 5.609709428263635056e-01, 3.705306299264216063e-01, 4.602513206606025919e-01, 8.151718523780028258e-01, 6.814727228757121447e-01, 3.535671829284520729e-01, 6.177195448628980401e-01, 3.708210116623054664e-01, 6.358828376960796724e-01, 9.241269405772943868e-01, 6.667186124165380701e-01, 9.687251446772662256e-01, 3.355038712547821489e-01, 9.665529650727531230e-01, 1.510633061979952674e-01, 7.564338805367404328e-01, 4.816064853319457217e-01, 1.689916395542297445e-01, 7.340555025216466412e-03, 1.064500105050799061e-01, 2.351309240744966222e-01, 9.631768690266225841e-01, 5.790594505378493517e-01, 6.508656235605940754e-01, 6.592573269293596772e-01, 4.246850252605083309e-01, 1.412526704481230633e-01, 5.225772184027601686e-01, 4.597365013320690030e-01, 4.859788078066677453e-01, 9.062272619792044459e-01, 8.932603511528699469e-01, 3.606977342785537832e-01, 7.017844191042283963e-01, 1.123568100704530615e-01, 6.283685620311570963e-01, 9.531501437811817912e-02, 7.042938797749765945e-01, 2.967556980540242417e-01, 7.984944287751137848e-01, 5.118389925294803966e-01, 8.545876143153066096e-01, 5.224206783893472483e-01, 6.126050047266711207e-01, 3.865979417506333893e-01, 4.590879389477129369e-01, 8.584894800390010516e-01, 5.543146638745856114e-01, 9.162538542965603661e-01, 6.886245818514237227e-01, 9.343881988698949925e-01, 9.863711468771266810e-01, 9.621089401212039594e-01, 9.466238141322212973e-01, 5.423631334053575781e-01, 9.438945624618099162e-01, 5.706912935678288834e-01, 7.754900479817571357e-01, 6.376221444012960538e-01, 1.144659294102469763e-02, 7.199463059272812604e-01, 6.856440285764698883e-01, 1.988407268306870146e-01, 2.445833633044356414e-01, 9.815703893444099881e-01, 5.820308406854585170e-01, 6.939578080905516311e-01, 1.043730650996633064e-01, 6.784464769931422001e-01, 5.121780655892194979e-03, 4.239905618140766830e-01, 2.700599650478617830e-01, 9.159867595102006987e-01, 7.554805094630603346e-01, 3.155685446775755021e-01, 7.735599537884328969e-01, 7.454067958010770489e-01, 3.161051411973499481e-01, 5.479552881528567676e-01, 1.601077294046966970e-01, 3.366317615427853460e-01, 9.744811048419442789e-01, 3.879907497006412909e-02, 2.371407202922835855e-01, 6.857769211278339494e-01, 4.907170489312920880e-01, 2.392060296817591358e-01, 8.347167281908336733e-02, 3.726887165866923368e-01, 8.201219602600943182e-01, 3.894294492247801220e-01, 8.854366106585672691e-01, 1.130915645029610533e-01, 4.026991568576418490e-01, 4.907443785595277941e-01, 8.180750952596070880e-01, 5.678692528073910895e-01, 3.229731894373775170e-01, 6.227764252997659566e-01, 9.173180620811842712e-01, 1.014481009403663675e-01, 9.756496169343118474e-01, 4.487616464223521673e-01, 1.791968260531516402e-03, 1.991940110351393400e-01, 3.822570615872442623e-01, 5.272502037903201710e-01, 3.927176596308924461e-01, 5.719140824423771807e-01, 2.319152275256864959e-01, 4.043712276923560472e-02, 6.911091862270366537e-01, 5.585771237569459036e-02, 5.016662839867341156e-02, 8.991384400608046779e-01, 4.838170221716847630e-01, 3.605222368307432479e-01, 7.286117493867957373e-01, 6.990306475677555698e-01, 2.538296860222503670e-01, 5.071074728369648899e-01, 5.337836545136837030e-01, 7.685378048425625108e-01, 2.497174643721135068e-01, 1.264252566084407559e-01, 8.633132558336845674e-01, 9.252569394211485054e-02, 8.307066478971693035e-01, 2.317838211897755019e-01, 3.078175618616494358e-01, 1.579236391513713089e-01, 9.178896839091283955e-01, 9.794249983052112363e-01, 1.981099966512189225e-01, 1.705666082548137341e-01, 8.304474282040118227e-02, 8.469362041276469188e-01, 9.670944703741840565e-01, 5.076772143045360508e-03, 5.617894088663100138e-01, 7.613384624010444135e-01, 2.942767155140076363e-01, 9.204647632617357633e-02, 5.365920341564490714e-01, 4.589252565074800616e-01, 7.454765629844192221e-01, 1.182882795300221890e-02, 9.353263881152185100e-02, 2.289161303551477122e-01, 1.301825045242963885e-01, 4.998732158918962054e-01, 9.959638234862373540e-01, 5.777961789466530274e-01, 2.051531936792593269e-01, 8.204287837554303797e-01, 9.673772754442978572e-01, 6.928327841800936415e-01, 8.092788586444606969e-01, 1.052391099238579319e-01, 7.506961747429462539e-01, 8.949819975525087346e-01, 6.331570038983983517e-01, 8.961033950809642601e-01, 6.620408048259289746e-01, 1.689526345444428979e-01, 3.180386040665038605e-01, 8.919536346430205764e-01, 6.494066360936694426e-01, 3.685160727656716650e-01, 7.394011055560301138e-01, 2.159271718302999479e-02, 8.802891870140527875e-01, 6.488769988926401666e-01, 9.530078157175491116e-01, 9.992982316906182660e-01, 6.718136138024028980e-01, 7.972928472725723248e-01, 8.399498872762439783e-01, 4.724414530186064054e-01, 4.554888145837108215e-01, 6.553575626512211372e-01, 8.271352126335312915e-01, 4.387363015029666080e-02, 4.701094113800678986e-01, 2.651060967458822581e-01, 6.778454948674692560e-01, 6.062314019161397782e-01, 9.706433113222786568e-01, 4.741317214089290077e-01, 3.433016985120022901e-02, 9.109392919568292113e-01, 3.676196675176178763e-01, 6.602715227998872116e-01, 9.265817612073884435e-01, 6.987579537040898847e-01, 5.551357211642010681e-01, 7.327174503450628595e-01, 6.457511975516343483e-01, 1.386817695023571662e-01, 4.134372184271978973e-02, 3.222836151952461203e-01, 9.403482250372963147e-01, 2.583806223207529840e-01, 3.217581929884596459e-01, 5.796397791395917487e-01, 3.801394999415745879e-01, 8.952483302237608243e-01, 6.018409976955674257e-01, 9.504856860363067872e-01, 8.927361752774596315e-01, 4.999904303322578736e-01, 8.688059583130000041e-01, 3.553806395241298488e-01, 7.152125578553680807e-01, 9.566008160664636328e-01, 1.917428812278111072e-01, 7.248431396909879587e-02, 7.390679574795566698e-01, 3.878140985419696873e-01, 3.518101719555826179e-01, 5.524793547341654287e-01, 7.742403445406078610e-01, 8.967327280547976454e-01, 3.944790913182130154e-01, 2.061326575554546237e-01, 4.611752939503641624e-01, 1.213063479681624618e-01, 1.612984185266159720e-01, 8.130892605704044263e-01, 7.882890757386039615e-01, 1.927435487901911493e-01, 6.907989453758642817e-01, 4.213950012947915713e-01, 5.842141052507204835e-01, 5.069631248955868141e-01, 4.756390824103916559e-01, 8.955027200806386922e-01, 1.837695411681793123e-01, 1.069280615197321510e-01, 8.261757500582711522e-01, 1.287451716896988729e-01, 9.017857044511552456e-01, 2.933784422689179536e-02, 6.609797225276815569e-01, 9.098887142530789340e-01, 8.773930910250719861e-02, 2.181296219975703554e-01, 5.020112694625697980e-01, 7.070429334471178828e-01, 7.883079840273464756e-01, 6.068685614068813905e-01, 8.681360954234583482e-02, 9.909786487748486472e-01, 6.718514872019949458e-01, 7.461140782288893103e-01, 3.586373024177333391e-02, 9.616023509835858185e-01, 1.539580519798079972e-01, 4.807398363589164836e-01, 3.932422383579587954e-01, 2.330217080188359269e-01, 3.552378624124447604e-01, 6.555343740360267679e-01, 7.751759314256765343e-01, 9.411931317659681939e-01, 2.953476995444399011e-01, 6.297393197462424208e-01, 5.489514384205649300e-01, 8.686476940752925202e-01, 5.564777739083864860e-01, 5.127137466326534172e-03, 5.482455900799845239e-01, 3.189433232162044995e-01, 3.571065287285221101e-01, 1.048741541498784402e-01, 8.932033004019904743e-01, 8.939481394847241802e-01, 5.520102812309362478e-02, 5.181662124895627386e-01, 7.130121254161356781e-01, 8.453414132653864765e-01, 2.400297421870183356e-01, 5.178278575980742593e-01, 1.048795501929025153e-01, 2.073537424062401879e-01, 9.504795330925314145e-01, 4.371997982841103192e-01, 6.754700742202351949e-01, 8.858432017543417247e-01, 3.763812121276243761e-01, 3.662411178032959347e-01, 6.727699761805817635e-01, 9.672324282411490781e-01, 7.048498616849903087e-01, 9.130478870550846615e-01, 3.281035803037853915e-01, 6.889359818950967496e-01, 7.385942597869690207e-01, 4.634208902078734704e-01, 4.016387043713149363e-01, 2.111036315499325300e-01, 8.630438138530099890e-01, 4.612324105840036603e-01, 7.665932821621499471e-01, 7.186962967560193150e-01, 8.749181838939676936e-01, 5.439656336693609040e-01, 5.206018857019221180e-01, 5.595699128043999382e-01, 4.505850532761880300e-01, 2.971232135117293227e-01, 1.796397023260068171e-01, 1.118903157240220131e-01, 3.944481309040466788e-01, 3.819110811183643039e-01, 7.875328588304513211e-01, 2.562463462655903967e-01, 6.439639272843655782e-01, 9.377731735737107055e-01, 4.525732454125036552e-01, 7.353117340153549897e-01, 8.748400889441972916e-01, 7.962672521837611539e-01, 3.129980346290976989e-01, 1.545590871372507780e-01, 9.539556552649415266e-01, 4.696836986225165766e-01, 7.980023523716082146e-01, 5.129144936257465925e-01, 2.383414905786495064e-01, 7.252007035957515058e-01, 4.094493417036649263e-01, 7.356912835776523441e-01, 6.170348118733802734e-01, 4.784128401848011802e-01, 7.983104809919260303e-01, 9.211700216322782353e-02, 4.182238077316292602e-01, 5.158281338285897188e-02, 6.245601357636392237e-01, 9.215405252273133341e-01, 1.608158910442054612e-01, 4.578559578370371974e-01, 5.853141465758006090e-01, 9.436060315421114231e-01, 7.745264413906072232e-01, 8.701150410977235294e-01, 6.108146478036472482e-01, 3.974459242781671620e-01, 5.110880017195326142e-01, 7.371961715356591949e-01, 4.423692833213944686e-01, 8.013380849209849055e-01, 7.369937888765742962e-01, 9.146399765044920249e-01, 5.360520810633161437e-01, 1.234018497738558207e-01, 6.003770062069517799e-01, 9.096785055776290818e-01, 5.073397400880108599e-01, 7.994187512088313241e-02, 5.593899975916397649e-01, 5.580604663502003460e-01, 5.201107515980982754e-01, 9.522936562299503249e-01, 7.859443350099397652e-01, 2.365518821144136363e-01, 8.412148175274152262e-01, 7.602260687492685687e-01, 1.247391712203925751e-01, 4.851764162211652520e-01, 6.758395843008614401e-01, 8.815658072732498463e-01, 8.065889479577371679e-01, 2.174509033040670225e-01, 3.161256212845844349e-01, 6.882051819286260086e-01, 2.605631492302244445e-01, 3.553865903913719371e-01, 2.936758183730507898e-01, 4.957203854375762941e-01, 5.476596535090951789e-01, 9.087147770197592234e-01, 5.310154867359443420e-01, 4.501757644436323313e-01, 7.599449347851354730e-01, 8.737992964954859054e-02, 6.338291878898189013e-01, 9.967054342391276078e-01, 4.742431150283689667e-01, 2.280046817169131268e-01, 7.458540005889614521e-01, 7.812328988237370320e-01, 6.247426190293177140e-01, 1.034755322043774683e-01, 3.946929233749341820e-02, 1.051130487402892055e-01, 7.127730492370846216e-01, 2.640112365358271429e-01, 8.169908948458601827e-01, 4.080846051812833108e-01, 8.991771614933094514e-02, 5.120633968803749436e-01, 3.068122704907721432e-01, 5.138880806943525448e-01, 5.591305484181772339e-02, 6.679520961070259943e-01, 2.253221973913973608e-01, 2.874638714556110863e-01, 2.755876766691781610e-01, 9.376164739963404049e-01, 5.769218289110169540e-01, 3.523528496267810395e-01, 3.141890929603874949e-01, 2.834808022857955856e-01, 2.671723282151708401e-01, 7.354800413711826135e-01, 8.575763201624519994e-02, 6.747402147691520247e-01, 1.552471941223525914e-02, 3.216311426051904343e-01, 7.125390322874324278e-01, 5.566107521551131310e-01, 2.975730856160421767e-01, 3.123850035146125484e-02, 3.791613691150813592e-01, 5.088288455827735812e-02, 8.582125114917334985e-01, 9.905808028088155526e-01, 8.803543631619989984e-01, 5.193955523219505599e-01, 1.562609934698371561e-01, 8.912324441218637538e-01, 1.480230704489540194e-01, 3.357736630064930838e-01, 9.837722621127072964e-01, 4.139150084070548075e-01, 1.804307420905012505e-01, 4.219404377510584392e-01, 3.140798031570627424e-01, 9.105843699669583513e-01, 7.203826189828612669e-01, 7.209521729657161204e-01, 5.034330308326483427e-01, 8.908485368946682248e-02, 5.302655985494060253e-01, 9.429781714973256568e-01, 5.394748189254213733e-01, 8.638986253992676501e-01, 2.323997140685750973e-01, 4.020087677541900884e-01, 1.962956893647501699e-01, 2.150469270189142024e-01, 6.319435246712747922e-01, 3.003627425376600435e-01, 9.504341424410790717e-02, 1.748439147160455454e-01, 6.968099136752223810e-01, 7.438666531622836198e-01, 8.447617671147025220e-01, 6.813782711469670295e-01, 2.857076243097013690e-01, 5.854967926145536739e-01, 6.038274048770471136e-01, 1.649161906434078728e-01, 9.171488277380088761e-01, 4.421978672793602794e-01, 2.157834174169852570e-01, 4.363324767304498364e-01, 6.778804702067169341e-01, 6.668275181119256434e-01, 3.856263489240595033e-01, 9.292507547358913600e-01, 5.380426945675738093e-01, 1.993982845882393828e-01, 5.911941746237923123e-01, 4.134512653427501183e-01, 5.436863021565931930e-01, 5.036058971512730187e-01, 1.506413377988590208e-01, 5.372023046039214877e-01, 2.096439479867883982e-01, 2.987110777545065599e-02, 2.771897742674122034e-01, 4.457041637014855229e-01, 9.889407288391312001e-01, 6.727266928927381207e-01, 4.980120724563171231e-01, 8.476073471485590094e-02, 6.679950434407745385e-01, 4.236708875807587149e-01, 9.575202357050979218e-01, 2.873121472638765495e-01, 6.535166021186795682e-01, 3.618463688033991543e-01, 3.288519040412247740e-01, 5.541531562195995964e-01, 5.652580073421297202e-01, 4.871180082453057114e-01, 8.276443624234210983e-01, 4.105394007201025319e-01, 3.590834937800904680e-01, 4.005035408832837707e-01, 5.921166279350350559e-01, 3.084614273695094333e-01, 7.064131534950248703e-01, 6.214422748914635308e-01, 6.077602035555900173e-01, 4.171053446905795825e-01, 2.602176518962227014e-01, 6.247251988644586529e-01, 8.987081278594833966e-01, 4.136390808408552111e-01, 7.399710701929562706e-01, 6.901300332993941244e-02, 4.838039468808371657e-01, 1.573608226829426027e-02, 5.933745307791972179e-01, 2.673686683586180557e-01, 4.856855357748297575e-01, 6.179536701917860003e-03, 4.717358556670111502e-01, 5.780783413306165297e-01, 8.810870280951035305e-01, 3.543116292263180922e-01, 5.250497665931586067e-01, 7.652055270150319721e-01, 6.456263744449312059e-01, 6.936329724042512579e-01, 5.207090224030421766e-01, 9.578303577531304125e-01, 6.829125215245995806e-01, 2.144396099491895080e-01, 4.049755499089362498e-01, 9.926162063945451752e-01, 2.577496373828780385e-01, 7.073713190350729985e-01, 2.771694134827004663e-01, 1.068411880983801687e-01, 1.348688361096962995e-01, 5.565078384728974203e-01, 4.371542333774665612e-01, 6.468246461755370325e-01, 2.593375224963071490e-01, 2.731526490799573992e-02, 3.116644718543740700e-01, 2.294073601814801133e-01, 8.371269474481826123e-01, 7.440149432983934608e-01, 4.485226454228471993e-01, 9.460272601461355846e-01, 7.910220815731719424e-02, 9.828728267809238028e-01, 8.551763217269625628e-01, 6.124736789459255260e-01, 6.715648878866103955e-02, 4.165134459570071224e-01, 5.578336468476985388e-01, 6.425375681600740130e-01, 1.763143055477417454e-01, 7.390512373289185311e-01, 4.755122062844261560e-02, 8.953723516115896786e-01, 3.394633398014601511e-01, 7.156945524452167362e-01, 8.148082185793044108e-01, 3.298566017308603437e-01, 2.912726408188000549e-01, 5.341637749701838578e-01, 8.117194428684906260e-01, 1.940079858811449842e-02, 9.434697120638455559e-01, 6.780564852763356666e-03, 1.306361774339490078e-01, 3.307792979511137710e-01, 8.571503133601674485e-01, 8.456475004224189851e-01, 3.109730989793340616e-01, 8.981578215565410028e-01, 8.510822282684551432e-01, 5.883581140033373735e-01, 6.964118195093907948e-01, 4.618351162312188118e-01, 5.735311884804182858e-01, 2.535996694755066061e-01, 6.182029409679796750e-01, 4.048252071495914706e-01, 8.974257165010223192e-01, 2.844474666279339647e-02, 5.559471381996411443e-01, 6.802041558912526042e-01, 7.803446821165731517e-01, 7.146901155794257998e-02, 7.843582697054598540e-01, 8.280638568880045736e-02, 7.531213551399776329e-02, 6.205218892648869389e-01, 3.960394127315857715e-01, 3.733804347903698639e-01, 6.261103718466900503e-01, 6.443720503777776720e-01, 4.832241030663643744e-01, 9.203961095403658810e-01, 3.590906903917511217e-01, 9.575555016636638772e-02, 2.154790344486512410e-01, 1.264088241830324810e-01, 5.583448648305129325e-01, 9.202564684935056194e-01, 9.458223329447801309e-01, 4.447592472731488056e-01, 9.400525243718775847e-01, 7.995755289109840458e-01, 2.667951801056691052e-01, 8.679537944485360423e-01, 6.944563154947985817e-01, 6.576622079022834688e-01, 3.087704978530808053e-01, 8.836224717541154572e-01, 9.687151191026655006e-01, 7.542412413282274519e-01, 2.303581248380862367e-01, 9.204017133974291553e-01, 9.926019905293140821e-01, 5.905529443347786733e-01, 1.248150770692444539e-01, 7.500285802121677836e-01, 6.215550451020570577e-01, 9.714867000701789268e-02, 4.272933547252305009e-01, 4.840119952453565411e-01, 8.689450318981257748e-01, 3.831904775910026650e-01, 4.516049592125010587e-02, 6.350918279774704356e-01, 2.545766422671282836e-01, 9.550061324467317148e-01, 3.909545017361862884e-01, 1.656082429558900504e-01, 9.565554940259934913e-01, 7.521776228605733250e-01, 4.883152476697224520e-01, 9.010179011123280457e-01, 3.813624156174234142e-02, 4.184742221198123335e-02, 6.773205348229106582e-01, 2.866991878717631281e-01, 6.442455712211581087e-01, 6.576206031451020673e-01, 4.302292818252049234e-01, 6.717422989365544606e-01, 2.880391742486704265e-01, 9.849392448033626735e-02, 7.270409167390443628e-01, 4.385819691071285442e-01, 9.588998572528795172e-01, 3.330939661376038918e-01, 4.191351137048667241e-01, 2.275389224074105821e-01, 6.691567519609312731e-01, 1.594517751430801766e-02, 6.125400866504648878e-01, 1.208751468091081166e-01, 8.335260010195719715e-01, 5.705841011181898015e-01, 1.601860413446440368e-01, 8.568918353740074823e-01, 5.458488801621936837e-01, 3.735803624880592588e-01, 1.921670338613033768e-01, 6.911198640991237374e-01, 5.668532241048849230e-01, 1.377055946317794488e-01, 7.209165187533024266e-01, 6.219795122161733136e-01, 9.988275601296164874e-01, 9.055682596275146379e-01, 4.666262010804567151e-02, 1.520122270383957308e-01, 7.751062052108022016e-01, 3.194280168060389391e-01, 6.921956628905279185e-01, 6.066116324683331479e-02, 7.125532392707305540e-01, 3.020918147255948760e-01, 1.725084841093173782e-01, 3.331931031300950918e-01, 4.829181588130931346e-01, 8.647798648705962155e-01, 5.221384048310135917e-01, 3.869541162965743353e-01, 5.953971005227947089e-01, 3.291574043241118908e-01, 8.184895686055072561e-01, 2.391764489491731982e-01, 6.734934030221730872e-01, 7.452665176540903547e-01, 7.514652721629461185e-02, 4.249661416037811001e-01, 3.730459273734678116e-01, 2.870700536957323523e-01, 5.595185550796824003e-01, 2.064148281113055150e-01, 6.375435539567959609e-01, 8.881668408549369120e-01, 3.337912165190704550e-01, 1.303385029808453999e-01, 9.767506553248623824e-01, 5.391921156186182396e-01, 5.238419384450049288e-01, 9.234639667367816607e-02, 6.844592489382839151e-01, 3.199512692858584306e-01, 3.857618000943581205e-01, 2.352025218444622756e-01, 3.143628200171731391e-01, 7.603286512131810504e-01, 7.345815417879049125e-01, 2.280392802450091072e-01, 9.565536169882759010e-01, 8.236500483953531626e-01, 6.666807845782712905e-01, 1.399537653688974759e-01, 4.485404676083038639e-02, 5.723308420713646427e-02, 3.205356996970866734e-01, 2.226045061652277834e-01, 5.888456400943843372e-01, 1.024516349641994978e-01, 4.396577919302899207e-01, 6.897049093143566845e-01, 8.402972229388462333e-01, 8.517941007880699411e-01, 9.130617559741127653e-01, 2.259938920055029887e-01, 1.208950085628669735e-02, 1.474817797234210248e-01, 1.454899204557002224e-01, 1.861197685516753075e-01, 1.124793971439981381e-02, 3.890817987801557520e-01, 1.403955172443590582e-01, 7.474217348345083556e-01, 7.346030788066730544e-02, 4.005105993672120612e-01, 3.334243677632081626e-01, 7.419604279280456183e-03, 1.556997540375471556e-01, 3.576100526283988446e-01, 7.524435451568786126e-01, 8.413174139436337962e-01, 3.791279330416460480e-01, 6.688766582015009954e-01, 4.721074794950940179e-01, 6.010473529258365533e-01, 9.672057318715570062e-01, 8.840886957913266508e-01, 6.943671435181824059e-01, 2.864554028856884926e-01, 8.148795456982002028e-01, 1.528042872779357686e-01, 2.382686426804566382e-01, 2.512829779266013697e-01, 1.309196269393766432e-01, 2.938817173824304629e-01, 9.679006898148306837e-01, 9.876552993326223051e-01, 2.447778840176532134e-01, 6.286081367470651715e-01, 6.304254764894975382e-01, 1.635897311940945065e-01, 6.513020950891063032e-01, 7.372274330856739555e-01, 2.019191291476130634e-01, 1.315897618780378364e-01, 5.645097618178102072e-01, 6.086683136824230234e-01, 9.171679950023591266e-01, 4.705997810443154350e-01, 9.442931412695564353e-01, 7.556185870031731366e-02, 7.792522992386747838e-01, 4.473186000435894205e-01, 8.238324675269833586e-01, 3.605298435038147287e-01, 1.022959278368285561e-02, 8.461196877181739184e-01, 1.299579191904527975e-01, 8.232618008492427197e-01, 1.207835045469102947e-01, 5.289936143398620283e-01, 9.229866877966951266e-01, 1.549533099003463921e-02, 2.781965431205987715e-01, 3.032717010764424681e-01, 3.203572205709638299e-01, 3.660541468176349289e-01, 2.423078250902660491e-01, 6.131516011157012169e-01, 4.666810049065116539e-01, 9.354083018911901748e-01, 2.064585286229765337e-01, 9.788875977537127016e-01, 6.670697788839591302e-01, 5.029013342244061935e-01, 8.701627631259547524e-01, 6.192001841534802153e-01, 9.003736875172272391e-01, 2.496593986892179096e-01, 1.108966762326596689e-01, 7.703228220300262219e-02, 8.679416756112768860e-01, 2.347831312630278278e-01, 1.270832474691645786e-01, 9.026291551015930281e-01, 1.472528712863691025e-01, 3.884614897100857611e-01, 6.856249018729015932e-01, 8.364601193850660366e-01, 7.564255254876567358e-01, 9.611960119257487722e-01, 5.190370876823198198e-01, 8.029676802479955577e-02, 2.715340143236465997e-01, 5.009594509507943050e-01, 4.533542911791360042e-01, 3.608988943427315910e-01, 6.196977008457336122e-01, 9.474575920948377639e-02, 5.882252133878808076e-01, 1.257474831269961291e-01, 2.026637642069838430e-01, 3.715725927947001739e-01, 4.034152719862891256e-01, 6.363588996577532741e-01, 1.441548359327727014e-01, 3.207558134209049783e-01, 1.613557881862855703e-01, 2.076353225363543331e-01, 2.666998129967711531e-02, 4.177189164222172568e-02, 2.683522444071025359e-01, 6.931972671999476754e-01, 9.934540068584328532e-02, 5.301516554429022143e-01, 3.104575531217089179e-01, 1.174804644155227756e-01, 6.063128751233123337e-01, 5.399598687775855055e-01, 1.776769305082381845e-02, 9.314907796724836153e-02, 1.618721691204655089e-01, 6.060358196473795145e-01, 4.476614001526358494e-02, 5.373694784861485774e-01, 5.856391801376851225e-01, 5.446742901559120664e-01, 8.967389134223460179e-01, 5.138424537140373616e-01, 8.070775980009191608e-01, 4.140098561639445895e-01, 6.640988122120702331e-01, 4.965915650120789060e-01, 9.081685690009567713e-01, 5.636910540537534153e-01, 9.818993710330254920e-01, 3.870723905401621812e-01, 2.886964557763030403e-01, 9.839220617236624777e-01, 5.593581100079842994e-01, 9.518958577698320989e-01, 5.137958007475752487e-01, 5.470499416988496844e-01, 7.530909291401196581e-01, 1.381181689143692326e-01, 6.180108850597095804e-01, 8.497794461996084348e-01, 4.890874811475819373e-01, 4.142627346416309919e-01, 3.835206210161526963e-01, 7.648205066193232149e-01, 5.641650508485100968e-01, 9.828108857262611853e-01, 6.605466267085782217e-01, 4.378298412518747407e-01, 2.567224364815302584e-01, 1.160564612574143013e-02, 5.972012780824670353e-01, 2.468466627011564052e-01, 9.579306239615902330e-01, 4.889059740209872884e-01, 7.852821627989522435e-01, 5.114977850282884653e-01, 8.196535781267911824e-01, 5.306490472939551228e-01, 1.532361067629941231e-01, 1.880298513911373148e-01, 9.290127859621000184e-01, 2.805119581595519884e-01, 2.330592308997478934e-01, 4.178340858110466405e-01, 2.240787894386597479e-01, 3.378376425229461244e-01, 9.681161803712832192e-01, 7.845697848272815689e-01, 8.865174721133903812e-01, 9.062173834331840316e-01, 8.935830430013483872e-01, 3.898158087471471633e-01, 3.017174978091129445e-01, 7.116276437391841903e-01, 8.834071959821021558e-02, 7.271291774586515766e-01, 9.230208579576737460e-02, 5.013004716389355409e-01, 3.988065047527289408e-01, 4.846699832194590885e-01, 8.534908998103974964e-01, 6.310329503795929496e-01, 6.681485742401324091e-01, 4.053437763622151913e-01, 9.016085728772367247e-01, 1.381001796590221042e-01, 7.529939602687781841e-01, 5.049240942736523685e-01, 3.608297082812861323e-01, 2.607093672273359530e-01, 4.820377122303121098e-01, 1.217270234957641417e-01, 2.030118274285579727e-01, 3.181547205162996161e-01, 7.783012253208052567e-01, 2.302870101132150227e-03, 9.850591195597532268e-01, 7.663601522082398310e-01, 7.200997536100152141e-01, 4.895493530952979393e-03, 9.723692070680726163e-01, 7.643126898836087868e-01, 2.112942685345392535e-01, 9.102981806488188443e-01, 6.591136031256432659e-01, 8.293875238230147273e-01, 9.784423527999124293e-01, 9.283463696252911568e-01, 9.246837416341691096e-02, 1.975675813795193247e-01, 9.480945925973118804e-01, 6.728219526738705714e-01, 9.262239698890156747e-01, 1.476392777713456395e-01, 8.196941275420533968e-01, 8.212564936443248476e-01, 7.879622579948767358e-01, 7.196194388520363860e-01, 3.904072451430613544e-01, 2.099516493653717231e-01, 8.402707573814066633e-01, 8.608956283156938838e-01, 8.733338156141364772e-01, 5.755588841666956501e-01, 2.105484041979724941e-01, 6.789498377507009463e-01, 4.633220072374318876e-01, 4.140259555101662436e-01, 7.421576270847167756e-01, 8.550227037576168393e-03, 7.424918671592357633e-01, 5.801360131290351774e-01, 4.041794625891629300e-01, 3.793489606472256193e-01, 1.002565382592557480e-01, 3.546155833062467622e-01, 2.031266513679422236e-01, 5.587039737316771282e-01, 9.765480956765055787e-01, 6.489226205220571808e-01, 6.551008842815034816e-01, 7.025176809155011526e-01, 9.321306320898412601e-01, 8.902329218626829910e-01, 2.841936740862950339e-01, 5.672007582729839958e-01, 2.752662230437883384e-01, 8.403211523139463290e-01, 4.619002406274239081e-02, 7.526632359775560221e-01, 4.466935707214855777e-01, 8.660317639164106795e-01, 6.346132772037236247e-01, 6.555280398289053956e-01, 5.183294412243587557e-01, 1.852335200698776996e-01, 9.368572368576886245e-01, 2.009021143477281168e-01, 2.152211074707909289e-01, 4.676286593737828401e-01, 4.814575211889239870e-01, 1.321066350883529361e-01, 8.770165487662318071e-02, 9.951059130816392040e-02, 3.214691600489094636e-01, 9.360325471095759520e-01, 3.950405944513971090e-01, 8.853930833449586979e-01, 4.804715614742096491e-02, 7.703641447749737248e-01, 9.234001493678627437e-01, 8.749882202109870999e-02, 7.768989768570100374e-03, 9.513090848641510000e-01, 4.808636952682968091e-01, 9.043173390256952215e-01, 3.829762852061424638e-02, 2.266470065767283992e-01, 4.413313782964440879e-01, 9.095453764238119465e-01, 4.460728503939921930e-01, 3.400379336906313998e-01, 2.250237729259171315e-01, 8.510163634531253685e-01, 2.942813766767690686e-01, 4.097544644117672719e-01, 8.390186925628779768e-01, 8.127337184873910658e-01, 6.648827121826240694e-01, 7.456683340489136391e-01, 8.548356857432932721e-01, 2.314970213463763207e-02, 4.078102533226442006e-01, 4.388618518302761506e-01, 2.855465197520739018e-01, 2.875162074080992447e-01, 9.345422807224053052e-01, 9.638323360048883792e-01, 4.539306285147555742e-01, 6.903238168549656883e-01, 9.879183240137094923e-01, 6.540216352957624046e-01, 7.856859533751485436e-02, 1.727668582762298399e-02, 1.782311615566332663e-01, 5.317046031614446333e-01, 4.113374502490257933e-01, 1.461572440176735904e-02, 2.135717620455078181e-01, 1.874952119215642643e-01, 7.760192610846558536e-02, 1.532907000073767956e-01, 5.596034321288415603e-01, 7.104863628977756695e-01, 1.623870534634775931e-01, 1.450803401453970021e-01, 5.223460557769227242e-01, 3.960396343366093252e-01, 9.206980049124668941e-01, 3.849995518995957822e-01, 2.473063801862568079e-01, 7.604717466550413585e-01, 2.745757346740774762e-01, 9.103043091877128790e-01, 7.577489876919984990e-02, 1.544826760289266521e-01, 9.454315603056102635e-01, 6.527835803908419443e-01, 4.568894896549975659e-02, 3.037685745074991117e-01, 6.849789111445159229e-01, 3.822081145318676487e-01, 2.139760754920888297e-01, 6.911330024482427170e-01, 7.042233238469652878e-01, 2.795799623165683423e-01, 9.578439822805617787e-01, 5.396057837168311000e-02, 1.884253285766611663e-01, 9.876837491920149592e-01, 1.059241047287829973e-01, 3.725334283969028437e-01, 1.021490484950220573e-01, 6.105661911720151602e-01, 7.246255137371498956e-01, 4.712352382292702702e-01, 2.169076347000231664e-01, 3.640930899729232229e-01, 7.195718926406743376e-01, 1.897320114399397017e-01, 3.189674378512028508e-01, 4.603750517346316129e-01, 8.997054046798697025e-01, 6.537633099141789694e-01, 5.463919651699674640e-01, 9.667872298830945677e-02, 2.646981002614334222e-01, 8.091436243099980885e-02, 8.801761458641533808e-01, 6.362008000576715450e-01, 7.093422097629967782e-01, 2.641978497439816942e-01, 8.847729906326471383e-01, 7.716506503079171297e-01, 6.964254955515405410e-01, 5.907155839011063447e-01, 7.897386089469291548e-01, 4.794782527644235737e-01, 6.841245707907076534e-01, 1.043447680685149689e-02, 5.654622698316087437e-01, 5.157619205244513561e-01, 7.250040024767725466e-01, 8.398992481428707579e-01, 9.500240778696301680e-01, 7.785563220613311852e-01, 9.481611758551995728e-02, 6.001764032598838616e-01, 5.338400687465923999e-01, 3.864298755660698914e-01, 7.259950317615306847e-01, 6.748403294905748195e-01, 3.681451531497435536e-01, 9.568140929731132616e-01, 1.829342513060399078e-01, 8.378022243554367199e-01, 5.956154407330652711e-01, 5.749278549435353769e-01, 2.636215614409423980e-01, 1.016314027335492309e-01, 8.170271434656099785e-02, 6.432235529328256263e-01, 4.253165477979627129e-02, 5.992740378476792973e-01, 7.313005305114472776e-01, 7.997382979931414448e-01, 9.749409930148301706e-01, 9.563554567369223491e-01, 1.331202647655534976e-01, 8.824211678195520436e-01, 8.720657032011818188e-01, 6.122841193970601781e-01, 7.004715301298587438e-01, 3.973657116313400461e-02, 7.803176468865276050e-01, 1.907658206520523037e-01, 3.827991711442361722e-01, 4.599167051772046211e-01, 3.130567443822802609e-01, 7.345997207644143767e-01, 7.530887822523236741e-01, 2.056719487554342918e-01, 3.970037714674578555e-01, 5.024127618722670219e-01, 5.365173611062236114e-01, 3.801484447550722012e-01, 8.512844110742637804e-01, 6.779541731376721378e-03, 6.884913434333223003e-01, 9.538844382343826256e-01, 6.889812558849360835e-01, 6.982453204482963471e-01, 5.699185650077308596e-01, 2.714606703744704141e-01, 8.559496955889996928e-01, 1.887396711094574409e-01, 5.137076784836557275e-01, 9.850846162071144052e-01, 5.843061446873643039e-01, 2.237051010285343589e-01, 8.468311466120279629e-01, 8.490232181217088892e-01, 3.645937798834787968e-01, 5.288745087317039406e-01, 2.233706882977052610e-01, 2.978605449335870736e-02, 7.001319166456722309e-02, 9.469647224884660819e-01, 8.011122270598334261e-01, 5.866946171629614515e-01, 4.169597519501078153e-04, 2.809247753335267772e-01, 5.898749068480791946e-01, 2.148066549767210509e-01, 4.354623232447829562e-01, 3.897558780823927593e-01, 5.936549364550426366e-01, 1.799248416654788407e-01, 1.466823262947957729e-01, 7.093638058272113689e-01, 3.721343969529844475e-02, 8.508308833122862902e-01, 7.522826956530043185e-01, 1.416055812552159399e-01, 9.060681676752068148e-01, 5.510455168453796126e-01, 7.666806428317484157e-01, 5.353854475198144280e-01, 4.558824992402937815e-01, 5.434285148690674860e-02, 2.209512665894786121e-01, 4.076777636493444379e-01, 6.320201313505651175e-01, 2.741164790712427579e-01, 4.383877993640704074e-01, 6.779926032541362668e-02, 4.906368989235577738e-01, 5.040532339233974035e-01, 7.247736314774028132e-01, 6.935903985293578877e-01, 2.631675338825586463e-01, 5.208617302604843374e-02, 2.360401438103847949e-01, 1.872082414451300622e-02, 9.556139390957744950e-02, 5.045438095533715250e-01, 3.196840243061838116e-01, 2.926244004499416462e-01, 6.679933399322970367e-01, 6.606423119353943552e-01, 9.426536345460646560e-01, 9.886983433240500441e-01, 3.640908140080701960e-01, 6.830552723041034557e-01, 5.641252660678193198e-01, 8.865014768760821617e-01, 8.052165856082652562e-01, 3.224539671073350933e-01, 4.495928887263462848e-01, 5.168017022818703898e-01, 5.431398439651243804e-01, 8.765065849083961691e-01, 8.535833499412668335e-01, 2.359676063606428453e-01, 5.653364422073947626e-01, 3.680229550066553279e-01, 4.003751884128950445e-01, 6.885813811696857023e-01, 9.630278149012300171e-02, 1.532069630569092844e-01, 9.511914307438076310e-01, 7.252889544897588303e-01, 3.687128233711010616e-01, 1.213968873277204708e-02, 9.205253431537532283e-01, 1.931861789136008964e-02, 7.057829720598164380e-01, 4.787535348531155588e-01, 2.595685000691423938e-01, 1.371343020929552126e-01, 4.001956613699238496e-01, 8.439165920833103796e-01, 6.504701640073419222e-01, 9.022955870949578294e-01, 2.842944332459130252e-01, 1.976248778701794953e-02, 4.891782987058251320e-01, 9.812667136949263513e-01, 4.367612719864424342e-01, 6.824054378667629983e-01, 9.861275811269941405e-02, 9.699042018568868606e-01, 9.622997789869221219e-02, 9.738189430570504124e-01, 6.120533982682647700e-01, 8.375384196022109817e-01, 8.277119684715618098e-01, 4.594328075381742260e-01, 3.504594874695305395e-01, 5.756794542177607887e-01, 2.819266559727744981e-01, 6.812149238723054223e-01, 4.396759017463442998e-01, 7.739289341150897006e-02, 3.899850900299648981e-01, 4.219408447907554982e-01, 6.058309371901063889e-01, 4.408973316639201445e-01, 7.977369952027743016e-01, 3.944099093085380314e-01, 8.555817329989157116e-02, 3.490327767333402664e-01, 5.687918005613376571e-02, 1.877561979722196794e-01, 1.272853281126853364e-01, 2.238364524751133011e-01, 3.004883830014223323e-01, 1.089759023835769752e-01, 8.266373169432130741e-01, 4.710938621330136300e-01, 8.567818485176609267e-01, 6.917451721100387196e-01, 2.287163708501672721e-01, 3.600066246775899259e-01, 7.870956780591821245e-01, 2.402458495028609864e-01, 9.788918637665020572e-01, 9.436818897821975805e-01, 3.882014129184724882e-01, 2.681314069080717802e-02, 5.080988809852665655e-01, 4.170061254908529746e-01, 7.055620970139743486e-02, 3.956200934625400678e-01, 4.320401507510140959e-02, 7.749649985035245159e-01, 2.345527932045521000e-02, 2.057719148597526582e-01, 9.601336665567120066e-02, 1.094971306349696166e-01, 8.489346683406033822e-01, 6.188822696185819483e-01, 1.390933481928890991e-02, 5.536060043364781080e-01, 9.817166594653837786e-01, 7.098016540560622145e-01, 6.403847503546369335e-01, 6.045759145431042203e-01, 8.827407865223043659e-01, 6.405836190595561863e-01, 2.917761733204067287e-01, 8.807938335943770181e-01, 2.234240200238657714e-01, 1.952449477624033092e-01, 1.246929004361722326e-01, 6.766708186808627623e-01, 9.873802228709478435e-01, 4.448977542953701514e-01, 9.560114029860314888e-01, 8.614491899319628443e-01, 1.979155954872706125e-01, 3.912768609676636200e-01, 9.661507611483629576e-01, 8.612552682960248340e-01, 5.886714715903551554e-01, 3.756571432366150876e-01, 9.034730612034957975e-01, 1.525521929584762182e-01, 5.334991559978558007e-01, 6.191338763706731863e-01, 7.233743106376974152e-01, 6.292143171387624134e-01, 1.613406772214134866e-01, 8.732911326021830511e-02, 2.160425615302789260e-01, 4.523956185615761183e-01, 5.378640143893667069e-01, 8.708990554512041626e-02, 8.702669533987423822e-01, 1.594004751429319022e-01, 9.514514100809192687e-01, 7.138413977106370378e-01, 3.111207702490508265e-01, 3.283215594574985241e-01, 5.208870369916611676e-01, 9.209422359424928040e-01, 7.709178472968241103e-01, 5.961736720572281545e-01, 2.857768082484749561e-01, 5.402026218130588919e-01, 4.700339833132103351e-01, 1.342955301205576990e-01, 3.958346210174047419e-01, 4.597353116852735955e-01, 7.116566964862567346e-01, 3.661240863511782684e-01, 8.680325753801292343e-01, 3.764249282473474123e-01, 6.152122081464007630e-01, 3.269555721278341598e-02, 2.941769526662335599e-01, 3.277140649152606722e-01, 5.549108702734489862e-01, 6.140172723434618174e-01, 5.833322762953758733e-01, 5.422124619129908840e-01, 2.901731222090430662e-01, 4.164019191048189406e-01, 8.345290116636854272e-01, 8.059161244444852379e-01, 5.657904998014832154e-01, 4.421095361042196581e-01, 9.720795587464297061e-01, 8.584111398454529196e-01, 2.421465152071087257e-01, 7.637158197428092210e-01, 6.445938664306301025e-01, 7.402136928565106189e-01, 6.838009896317673864e-01, 7.920777877564779690e-01, 9.246798635461068727e-01, 4.411637616299636244e-01, 4.884591810259419215e-02, 3.081124521182622700e-01, 7.133409096377371639e-02, 2.761118838890488369e-01, 2.924734094754266600e-02, 1.039712680682315094e-01, 5.528111078272088807e-01, 5.182339530993032017e-01, 1.928864757242506334e-01, 5.388271077879845938e-01, 9.264966863368311323e-01, 9.465637262633123106e-01, 1.808444426933426830e-01, 3.271506307355583898e-01, 1.436136212283752045e-01, 4.689210737091943915e-01, 7.228636411539938189e-01, 5.381064051897088696e-01, 7.752474426135114172e-02, 8.814421172665071191e-01, 7.311420316906439565e-01, 5.992904277713441141e-01, 1.830807499023128504e-01, 8.858822906012931986e-01, 4.798415578284266347e-01, 4.689073336377917456e-01, 7.540069329638061646e-01, 8.646368749395613729e-02, 7.864804166971122168e-01, 4.735476814478205565e-01, 7.726351802804261037e-01, 9.302635927513088765e-01, 1.272836444977454295e-02, 8.033749023084187924e-01, 6.362558767360232403e-01, 2.350350637531227471e-01, 1.131284519723201043e-01, 6.889287687546592487e-01, 5.906551283606936709e-01, 9.165718226622602272e-01, 4.486330058392858366e-01, 2.324042436825255950e-02, 6.741625425917832475e-03, 7.485940701242611850e-02, 8.398388971651553625e-01, 3.266108310095472977e-01, 1.175281223754541943e-01, 8.324650142396287089e-01, 4.541542669621542183e-01, 7.216099075365132176e-01, 1.768630048493801676e-01, 4.177334574861402694e-01, 3.059142368791205047e-01, 3.794678941274148287e-01, 4.125247182682569014e-02, 9.021062672954880401e-01, 5.327805222742906799e-02, 5.398803406126692073e-01, 3.487633474043834725e-01, 7.391290111816294361e-01, 2.890020998091535898e-01, 1.117205395754055502e-01, 4.871561393506271820e-01, 3.498798787750753148e-01, 6.881631559717114044e-01, 5.353173851068302458e-01, 6.466318304578465570e-01, 5.993012424297420315e-01, 2.095654684748698982e-01, 2.062094057493045907e-03, 7.711149229080748180e-01, 9.582367528149882130e-01, 5.799777168543397421e-01, 6.446597044163273615e-01, 9.595125149902649087e-01, 1.872794639290797925e-02, 4.377543058361508255e-01, 6.481589407718423290e-01, 4.456217045483839012e-01, 2.788303862640559849e-01, 7.162971513990853412e-01, 8.200232975084165155e-01, 9.870963134160306574e-01, 5.782234246594808447e-01, 5.434661448014942858e-02, 8.542061748883396088e-01, 3.646021782963296820e-01, 9.347989486476181442e-01, 6.484323844212132315e-02, 2.421375197182344952e-01, 2.646299659458528630e-01, 7.352661714438556428e-01, 1.162248115129892456e-01, 2.120365641861471362e-01, 7.271184605144541679e-01, 2.329232175737606381e-01, 2.058009541773476725e-01, 7.867578672264903261e-01, 4.461432475219180849e-01, 2.878008865048837794e-01, 4.032315907109280118e-01, 2.856702208282295707e-01, 3.307302625423769737e-01, 4.164903526664937017e-01, 5.023734816266025582e-01, 8.117704554342008993e-01, 9.903063310078581427e-01, 1.408054865006004297e-01, 9.929303697434092857e-02, 5.313265546192244004e-01, 3.137933978478185670e-01, 7.349423388108817790e-01, 9.721612194326202383e-01, 6.960073528619257210e-01, 6.041230963436505785e-01, 3.171341132139129382e-01, 9.405927930764478306e-01, 8.773672476352140093e-01, 7.545885065826682947e-01, 9.559172579779786141e-03, 3.815156502106911707e-01, 1.168972314155537207e-01, 5.866414761962420732e-01, 8.610329729346509753e-01, 1.660953241093710286e-01, 4.688427504162034909e-01, 5.667735677567501407e-01, 9.816830520678970773e-01, 8.797277442273400139e-01, 2.732566997843208778e-01, 6.979340924058224926e-01, 9.125636010821354116e-01, 5.727044664129503637e-01, 7.512920349684854004e-01, 7.859609549332610134e-01, 5.393712637067481497e-01, 3.695016587573284328e-01, 6.771845452723274095e-01, 9.298374316585471533e-01, 1.219975878053175707e-02, 8.576846384149616753e-01, 3.949342797550022821e-01, 7.647748051558103111e-01, 5.623428519198865327e-01, 3.669065513403340639e-01, 9.224389998049831174e-01, 2.168603065812462760e-01, 7.437607892100707163e-01, 5.519253067020695180e-01, 5.856386416914745041e-01, 9.083733820552639671e-01, 6.952948303260135521e-02, 5.067235942799153126e-02, 4.354834481251871892e-01, 6.408540003369805893e-01, 6.502746017830904508e-03, 1.767382720267783314e-01, 3.340711706910882706e-01, 6.111957400253107409e-01, 7.353444247748877616e-02, 2.891470696350640357e-01, 1.034485518606035326e-01, 4.181892469025865755e-01, 6.512561503183015299e-01, 8.869082318064143156e-01, 1.923479600013725532e-01, 7.136788803853069685e-02, 9.594308184000668316e-01, 9.368776726688528012e-01, 8.751677302416103199e-01, 2.221074038887813629e-01, 1.118371397750339558e-02, 3.919708776749927237e-01, 7.961991099253847848e-01, 3.579763531502617724e-01, 3.936032862614364802e-01, 6.906152721558458385e-01, 9.236542506272360509e-01, 5.769294988823090442e-01, 4.986183691866235002e-01, 1.216251159868241699e-01, 6.207535185052891480e-01, 3.997131654282012891e-01, 2.257365430174829157e-01, 7.351883439326254432e-01, 7.126315964261761282e-01, 7.215855980423366844e-01, 7.007406416616903666e-01, 3.647131090760672989e-01, 8.544522708616091311e-01, 3.755467980059720157e-01, 8.175315959171691738e-01, 9.661563562184848353e-01, 2.880541580765186849e-01, 5.907179246150984220e-02, 6.053294902763523000e-01, 1.641689690224627102e-02, 8.390332871472857557e-01, 5.155975174206370859e-01, 9.324026189870608938e-01, 5.104384812559661366e-01, 4.585059389045951783e-01, 8.045806444910282851e-01, 4.553153823052337734e-01, 7.038842794201841113e-02, 7.963568789112502877e-01, 7.968538118037001849e-01, 5.039696050592741283e-01, 7.009059856040307235e-01, 7.140051429670650762e-01, 4.405695612606598810e-01, 3.401689589119221702e-01, 6.774271041361032974e-01, 1.678142667338187177e-01, 7.754245017875722734e-01, 2.049420784637533688e-01, 5.339367428739277832e-01, 3.890341400384966786e-01, 5.784622166871058457e-01, 6.852452216274725894e-01, 1.870462008634679596e-01, 7.240973728427195777e-01, 8.146369937039434905e-01, 3.287788773164623257e-01, 9.470491453554176486e-02, 6.852080726564422318e-03, 3.260174229759590925e-02, 8.841583704376821951e-01, 5.036763138655957484e-01, 2.743855373784339635e-01, 7.538321649299343230e-01, 6.685583241848754854e-01, 4.807241200093257394e-01, 6.825105823263354354e-01, 6.507645820488251465e-01, 2.692249417905478448e-01, 1.481755801082462222e-02, 7.628212562515946926e-01, 1.228260368939347591e-01, 1.456893473764164226e-01, 6.742290399328481065e-01, 2.354298117522521105e-01, 5.565145709579265992e-02, 2.601731262840317749e-01, 1.997540986071859315e-01, 3.787958964622212821e-01, 8.587863098069551393e-01, 2.816305072899305539e-01, 8.885128864236231383e-01, 6.490208936571187914e-01, 8.872654194090401347e-01, 6.613680696305297702e-02, 8.562167439469362540e-01, 3.091807359201270700e-01, 5.432911419095517447e-01, 5.599328951785909059e-01, 7.162221541740665387e-01, 6.097069653885280882e-01, 1.931309059319898380e-01, 6.636936422199292140e-01, 2.664763217897468950e-01, 8.966926788656429670e-01, 3.195020718064783272e-01, 5.907103456337968739e-01, 9.600871875467789085e-01, 8.640068403532701335e-01, 8.838603492180356902e-01, 3.305030903915217033e-01, 5.363420616407175157e-01, 9.594800417922939584e-01, 1.475166709822603173e-01, 7.498002943498982553e-01, 2.904533208665016630e-01, 3.999456752890886424e-01, 7.806462721497584578e-01, 4.559271955360341133e-01, 1.216893114976559803e-01, 8.716422508400785141e-01, 6.524403530802853901e-02, 8.652251376076838252e-01, 6.081342297412650755e-02, 3.996679728982229785e-01, 5.101513794712311256e-01, 8.032771776664235919e-01, 2.477821764128377291e-01, 5.413327749358352037e-01, 8.249235479631480406e-01, 8.318245426065156156e-01, 1.398511173481099649e-02, 8.525853471897359981e-01, 7.325707917470076769e-01, 9.142499016645720955e-01, 8.808246270377877440e-01, 9.576765859109642731e-01, 7.671941013483751792e-01, 5.126653185584654215e-01, 6.091925108020307400e-01, 9.765073316955631411e-01, 9.431716804054945946e-01, 2.011750724102892296e-01, 5.911087594079339480e-01, 6.537760735338473683e-01, 6.533254359875714234e-01, 1.827541319022718269e-01, 1.096367902999316885e-01, 5.849002138946792773e-01, 8.960001083020864288e-01, 9.866346232281779649e-01, 6.624787673937007071e-01, 6.301908490297554177e-01, 5.677396193437558303e-01, 9.216743958244777435e-01, 9.706487375403914653e-02, 9.212482927459013649e-01, 4.436259051652340357e-01, 2.264445421923629853e-01, 9.379852608328065333e-01, 4.432061977196604663e-01, 5.065755702192297205e-01, 9.118831695412571436e-02, 8.715309666601872562e-01, 1.894375544221882091e-01, 3.365005615777488801e-01, 5.963198085040617435e-01, 1.038481187841060194e-01, 5.950258670193766530e-01, 3.419380235659069123e-01, 4.093245343373674849e-01, 6.349774044307313625e-01, 8.655895500695397482e-01, 1.426011552911739810e-01, 4.273346717656828497e-01, 1.421908112905561072e-01, 9.275630424708489197e-02, 9.167163352263882903e-01, 9.725954647006789244e-01, 1.400180632505028944e-01, 7.623143670431777874e-01, 7.211067022001086402e-01, 4.835558217792457203e-02, 1.974013556021371185e-01, 6.467875569468113373e-01, 9.842041892852306795e-01, 9.052803681940353453e-01, 5.641192340607464883e-01, 4.364072712112159191e-01, 5.979099457532198736e-01, 9.579783200733787973e-01, 8.429849634261975533e-01, 1.773804182857119105e-01, 5.034634734562656311e-01, 3.286339463607197975e-01, 7.332857805054434630e-01, 2.514512938325581537e-01, 9.273042938068384311e-01, 5.887938318953722661e-01, 9.002954143346630911e-01, 9.492282766548995054e-01, 1.933954374827806799e-01, 9.791510673165013667e-01, 1.862739193903158730e-01, 8.126075048093149844e-01, 8.697560951828638975e-01, 7.553058762672440474e-02, 5.718747726842502432e-01, 7.364245093278936061e-01, 5.214753916502822273e-01, 8.562306113649745809e-01, 4.267200627132244906e-01, 7.175979844798511254e-01, 6.219009750823630833e-01, 4.861343212950401949e-01, 3.956622437464197839e-01, 9.854888548090556810e-02, 7.963368393465931616e-01, 3.804962052283641372e-01, 1.528788190576929884e-01, 1.514139734269075444e-01, 9.688533246388860709e-01, 3.938526172843251905e-01, 4.948103227456989717e-01, 2.087064649021412033e-01, 7.800903909880350096e-01, 6.037782123393625744e-01, 2.544368717637428556e-01, 9.099544068819070963e-01, 1.007358560367067890e-01, 4.024306812709655956e-01, 3.424361941535981058e-01, 7.531198606776810800e-02, 7.574383405437000727e-01, 8.451516280957505067e-01, 4.533924883417466134e-01, 7.977634055900110210e-01, 8.998052002312767472e-01, 9.669515892266123958e-01, 5.802257593509400069e-01, 5.855091651746806986e-02, 9.273022857906420002e-01, 2.476739174168012328e-02, 2.285957379467089545e-01, 4.771934382507974082e-01, 9.239941202904415896e-01, 2.061219037286722844e-01, 9.671712325021478707e-01, 1.011544229075010959e-01, 2.076141376368178804e-01, 2.019535425261429207e-01, 3.539291638058834066e-01, 6.775744798052016904e-01, 5.909182818480968047e-01, 8.678451412087498928e-01, 9.276684652677837928e-01, 9.160837546925181263e-01, 5.339479343551948309e-01, 9.694435363561964003e-01, 1.746533644828102416e-01, 4.131112398297422938e-01, 3.779581008645421791e-01, 1.888240202139048751e-01, 4.913999282682257608e-01, 4.179836941210318679e-01, 5.684908754859052671e-02, 8.470867711697834812e-01, 7.840142110431879141e-01, 5.804764222057843259e-01, 6.997488792027417581e-02, 8.816469816829071160e-01, 4.110598189438330330e-01, 3.088215766775682936e-02, 9.687887946711373210e-01, 3.875615511980572414e-01, 6.635903973371293230e-01, 6.054129433343321542e-01, 6.636408801026664195e-01, 7.076621708179733350e-01, 7.386856099257045338e-01, 9.997652870156347182e-01, 8.737786431369045648e-01, 2.379792702957932715e-01, 4.833994723931686610e-01, 9.293742447101209780e-01, 4.841907595904912376e-01, 2.846470526141969826e-01, 6.930018984881625155e-02, 6.496763796908898714e-01, 9.890793337730852119e-01, 4.389901703633820040e-01, 5.023373271383244631e-01, 9.110055749983108075e-01, 8.545597196481301561e-01, 5.218035249027718203e-01, 2.645021868093481165e-01, 8.302342951936668713e-01, 4.406840276534755296e-01, 1.013357831771038581e-01, 8.909532367359084271e-01, 4.139371677290507590e-01, 8.901631494204374773e-02, 8.565762602494476630e-01, 4.185589786514257726e-01, 4.257537244434179691e-01, 1.104796347299246140e-01, 6.007318041076120663e-01, 9.009398915869781810e-01, 3.929145385583386885e-01, 3.178628927817115923e-01, 8.571999416851773246e-01, 5.336084997151157028e-01, 7.265560864066682445e-01, 8.689849386210944937e-01, 8.489784472731378706e-01, 7.851820442907950781e-01, 9.540768048691165015e-01, 8.535605700061636991e-01, 4.429347791077426488e-01, 7.117156209013997259e-01, 6.255741082167213252e-01, 8.890687366899641120e-01, 1.204780423028357639e-01, 8.058378151139677925e-01, 7.980388919131088388e-01, 8.089881345162965864e-01, 6.033972806764019703e-01, 4.059706245608588060e-01, 2.543503721430584452e-01, 8.160121378395149838e-01, 6.792327819183736626e-01, 1.305071457024562509e-01, 7.421299824943534684e-01, 5.815120390674657358e-01, 4.839123646053166694e-01, 5.013706819624195316e-02, 1.616242375433414313e-01, 4.425858802272255588e-01, 4.637498151574025451e-01, 7.675787910524939361e-01, 2.646142379833854585e-01, 4.723360560063269431e-01, 1.374686570307684930e-01, 5.896663903576543353e-01, 4.856718609072513959e-01, 5.015965459849378583e-01, 1.308810694479833892e-02, 2.177120488978288304e-01, 4.660937774070530309e-02, 3.915476819871789582e-02, 5.088178281549243787e-02, 8.614571869412867011e-01, 3.556389329637769658e-01, 4.182128251224453974e-01, 2.243117100050445734e-01, 6.538259989441809195e-01, 8.971322771528793538e-01, 9.033067898625184444e-01, 5.777367520219178765e-01, 6.351631232859725751e-01, 9.774454070739395650e-01, 7.528152262702095809e-01, 5.423702889083282797e-01, 6.494695793667739636e-01, 9.478880955322632751e-01, 7.391513014028439077e-01, 2.369633864729890071e-01, 1.993282515947183420e-01, 7.148851533732459851e-01, 6.167020654460764195e-02, 9.986094143165131776e-01, 5.592365242940735559e-01, 9.669571691557574677e-01, 5.140369222727149134e-01, 6.743872412118706583e-01, 5.101160723291863208e-01, 2.273762479577325912e-01, 7.080703239716908959e-01, 5.973363582763828727e-01, 1.187239527627085289e-01, 7.594608355375589981e-02, 6.413310776291120119e-01, 7.051629658270974765e-01, 3.017909565832411767e-01, 3.140023047663682010e-01, 2.247351441285882212e-01, 9.974833920541061882e-01, 4.530908010809017172e-01, 7.601174546339827254e-01, 8.787566529000664373e-01, 8.304200129386449802e-01, 3.022429906461929217e-01, 1.522738855706932126e-01, 2.858297092297888975e-01, 9.911121230379987823e-01, 9.279997783304765324e-01, 3.805017171652893548e-01, 2.153245685536045173e-01, 1.361903169402858826e-02, 1.611713032284958491e-01, 4.751918189838194029e-01, 6.536200081832724829e-01, 1.261786835504269955e-01, 5.163364777372196623e-02, 5.339066305776639654e-01, 8.009536249662950746e-01, 1.843995226145813127e-01, 3.717518202756976697e-02, 6.234623738392135461e-01, 4.195768953747532892e-01, 8.647092387575845418e-01, 9.115510288981049092e-01, 7.112037238807957795e-01, 3.579597647035393654e-02, 9.087589318286048989e-01, 9.342726721124834377e-01, 9.282840625349275676e-01, 4.558463231349590417e-01, 3.546653001844883579e-02, 4.524939090971190347e-02, 2.340987977646129814e-01, 2.839086706375592017e-01, 7.977017257581920928e-01, 9.199376291245017767e-02, 9.779399618416247941e-01, 4.050068929047144772e-01, 2.970625623101407278e-02, 2.235782903863438031e-01, 5.763479902403443461e-02, 8.316081986859165109e-01, 5.574194648988477496e-01, 8.153202570317991116e-01, 1.542154255011925212e-01, 9.784769243649642512e-01, 8.371929884004312150e-01, 4.085747670369262452e-01, 2.393572917336581618e-01, 8.370638692463305830e-01, 2.729075884375227190e-01, 4.301080248621065860e-01, 8.699663222380821237e-01, 4.340565114613875730e-01, 5.681414002865524671e-01, 5.816680090482808652e-01, 8.471694587757336858e-01, 2.404203949139602781e-01, 7.174563170086089015e-01, 8.834026471223399568e-01, 4.355049897381616519e-01, 9.931472772648780589e-01, 5.388638480226155547e-01, 6.548387642625053129e-01, 9.881033081501566784e-01, 5.120807210938231879e-01, 8.219832138112073139e-01, 6.112196288985010106e-01, 5.793428216755625026e-02, 5.173242704448707263e-01, 9.493933854232183833e-01, 4.283472268622683932e-01, 8.763145891855909919e-02, 2.038571637653762425e-01, 4.130488040901203473e-01, 2.968665868636174432e-01, 3.682037110187010298e-01, 8.679808106640458654e-01, 4.376376093361745712e-01, 3.005372058659225853e-01, 6.151397765349717606e-01, 5.711325289743026667e-01, 9.653935506913468023e-01, 8.267141567926231671e-01, 6.843599700340294856e-01, 7.678305565109269093e-01, 7.058399870598837111e-01, 8.254263720774529522e-01, 6.715031125530842582e-01, 1.954739907675129285e-01, 2.123260091924144000e-01, 1.458424843966864004e-01, 1.366520561081843999e-01, 6.114600180161015031e-01, 6.308305891541117205e-01, 5.089154300633680350e-01, 7.297617276633813210e-01, 6.920370657465344522e-01, 8.569636269584884891e-02, 9.462345040749480241e-01, 3.421182352087793199e-01, 9.622796197058797185e-01, 9.976766139973294312e-01, 5.957497822933562892e-01, 1.074348186596914001e-01, 6.249799313617876440e-02, 2.198736968919238755e-01, 6.836618611215036223e-01, 4.530175395540294581e-01, 5.086986202863730266e-01, 6.642140697034885077e-01, 5.077404655833602787e-01, 4.836843336078798794e-01, 4.009918079232704935e-01, 9.899362199279589936e-01, 5.964690858892119918e-01, 7.962156280362706617e-01, 4.704412207921170319e-01, 5.791180197473129176e-01, 3.439037184112371248e-01, 7.544651338059520373e-01, 4.841954185577192482e-01, 3.579921896449411167e-01, 1.419501064778611321e-01, 8.753004770928725087e-01, 5.758580271462188094e-01, 5.414491211964090889e-01, 3.259339674029640421e-01, 6.672215938691206105e-01, 9.523585324570873478e-01, 4.221106563712976323e-01, 7.501215080735670337e-01, 5.416834678746496046e-02, 2.527494684365104716e-01, 7.591214107585967374e-01, 2.326271000386125332e-01, 9.765825216645618312e-01, 3.193002203476370537e-01, 8.257587569382908166e-01, 9.067958657090953167e-01, 5.063772561468266042e-01, 6.788959918414379235e-02, 2.785257168917728565e-01, 6.087228301789605611e-01, 5.601942248260157742e-01, 6.087950011552643037e-01, 5.880653772344511809e-01, 4.530282547642900393e-01, 1.020634574003508876e-01, 2.318862813098411246e-01, 1.542858956711299634e-01, 1.617513603998174399e-01, 8.210612837233971506e-01, 9.432871738428207919e-01, 3.442510278904765131e-01, 8.652168751718046780e-01, 4.077376576546138942e-01, 8.696233502356063294e-01, 6.669066671398518054e-01, 7.396539332877898332e-01, 3.415210241933146484e-01, 9.147034578146442385e-01, 2.704286935712029716e-01, 8.429425167497249793e-01, 2.868397098912783827e-01, 9.667872905743368772e-01, 6.761394159246458813e-01, 7.178845527367849755e-01, 4.224756910125578024e-02, 9.268682672708550285e-01, 8.948067035059769081e-01, 8.715215462799162927e-01, 4.610254848637406755e-01, 5.748483226574510052e-01, 9.814843497531688943e-01, 7.609006157956937910e-01, 9.108048184768761102e-01, 7.115349456936793660e-01, 4.502505454376384275e-01, 7.635265093508399881e-01, 5.773434948309340564e-01, 1.587218819767641509e-01, 5.693555797207650038e-02, 6.640371145106389594e-01, 4.800388120411288040e-01, 1.338616448270550374e-01, 8.180365781129462777e-01, 9.423011713145316159e-01, 2.900775264157205435e-01, 4.945618262897566453e-01, 4.812118551719661852e-01, 3.988487358229189095e-01, 7.107209940551219296e-02, 9.028000360608369190e-01, 3.987118625662029459e-01, 2.829274071468388385e-01, 1.808682536852127265e-01, 8.914718766416552809e-01, 6.863538592961350160e-01, 6.087888578827631569e-01, 4.474565893638997038e-01, 1.709449779573738587e-02, 2.208528456547195207e-01, 5.609640687743872034e-01, 3.788488415345251381e-01, 1.647110170922490846e-01, 4.742502458903693485e-01, 4.812873747978095862e-01, 5.929668213126068066e-01, 7.339398314606939699e-01, 1.471758732601758692e-02, 5.291671778670041792e-01, 6.216816722206491841e-01, 3.272634751626327665e-01, 3.768287346148206929e-01, 4.042576996200659134e-01, 9.076569447065693241e-01, 2.237690516005468866e-01, 8.691511047109162780e-01, 1.035758475719929933e-01, 6.182334814127787848e-01, 6.852710863809837738e-01, 4.379765813177721734e-02, 9.387387042387018710e-02, 2.951810394697718110e-02, 6.720016620192063028e-01, 7.013577367551244723e-01, 3.378127549703077714e-01, 9.920759642740647477e-01, 5.635086396074251436e-01, 2.151531686174556757e-01, 4.407742183737977659e-01, 5.591044087732894852e-01, 5.243132172867591700e-01, 5.350852571200115371e-01, 6.288101598278592608e-01, 6.448477549082380911e-01, 1.015973167320012721e-01, 5.160605870450329924e-01, 9.623652086026981411e-01, 6.627470702047949525e-01, 1.220971221056090933e-01, 8.746352847825025201e-01, 7.389005675232140913e-01, 4.306695328061240780e-01, 5.357276008895071051e-01, 2.511541339417799890e-01, 4.625719530215311459e-01, 8.986218765102360617e-01, 6.987642799070649113e-01, 7.964092340289259386e-01, 8.487740240619471299e-01, 5.823694339739646786e-01, 7.261358223517446753e-01, 1.376980746548386036e-01, 5.429222525655232889e-01, 8.878517478996496293e-02, 5.235320686682199964e-01, 2.675804546168042419e-01, 1.322530926888499658e-01, 1.967879164301347683e-02, 8.992165719343552244e-01, 8.835434549100817936e-01, 1.892662957640533009e-02, 8.809089352264757311e-01, 1.333466581893336944e-01, 9.154949019448785918e-01, 5.741650284104896640e-01, 1.830940074557974306e-01, 3.161707774509955882e-01, 1.739735148350310956e-01, 6.801117731183636828e-02, 6.597163232857240489e-01, 9.762639029570798765e-01, 7.880735680049760772e-02, 4.409201157128218584e-01, 7.784050862068189192e-01, 4.287675651562395940e-01, 6.528120737802122209e-01, 7.311594206736959922e-01, 1.527833347582253087e-01, 9.998099927120236430e-01, 9.569415295228214102e-01, 5.540069741666444614e-01, 1.963672713145868942e-01, 5.488692172577568362e-01, 4.606124974829060165e-02, 9.796206543452301574e-01, 2.151807777443910941e-01, 2.157956422170494992e-01, 9.935611982378151907e-01, 2.913798627756406315e-02, 7.204043513454452263e-01, 7.966916427863887096e-01, 6.434185163651677808e-01, 4.787720239523922672e-01, 5.742131694085125249e-01, 7.375065418867343681e-01, 8.049326414785660244e-01, 3.157716727900542475e-01, 3.583656091299463053e-01, 4.706377598192439393e-01, 6.309347925689403613e-01, 6.295019714218450524e-01, 6.265673437281792379e-01, 2.325215452903407476e-01, 8.219964322362977027e-02, 3.296529855150153177e-01, 7.538137499611378134e-01, 7.171885612080535211e-01, 5.148449758108617491e-01, 1.292062888611884841e-01, 7.120976095807384221e-01, 2.141222722008648965e-02, 9.853835789365542608e-01, 8.380214876598990337e-01, 9.905925424311156080e-01, 8.102629586636317383e-01, 7.980784690265435577e-01, 9.155871579240201230e-01, 7.829789518180842178e-02, 8.178175087319151659e-01, 7.313408136534982340e-02, 1.247421636795060518e-01, 4.818265050054386378e-02, 7.613882632645964099e-01, 4.752789566896907236e-01, 4.484282993419829166e-01, 1.832686477576444262e-01, 8.555419590610892078e-01, 8.749707494957760234e-01, 7.617416420058006343e-01, 4.025125744256033977e-01, 6.415854730546782791e-01, 8.818888040571972731e-01, 2.944647375879512752e-01, 7.442030690212219080e-01, 6.778916775670785766e-01, 2.325196322768843249e-01, 9.910636544622808408e-01, 9.917796653897063830e-02, 1.404582125153355232e-01, 4.665170957796179185e-01, 3.683743439745839621e-01, 5.791277264068804831e-01, 2.762418369734476187e-01, 3.474636830889972217e-01, 9.982787240108200733e-01, 1.036554943646931237e-01, 9.180895272261399009e-01, 7.068934295799761403e-01, 3.712843824451105279e-01, 2.573762456498363549e-01, 4.293794765443232908e-01, 1.347654157523554830e-01, 4.531070019525461068e-01, 6.444669712614145007e-01, 3.554966867761925609e-01, 2.653285475175762853e-01, 2.593496720903823993e-01, 8.980385479908702395e-01, 2.412423113798135149e-02, 4.418363462915055884e-01, 4.487883924026436766e-02, 8.671309303845308181e-01, 3.871145605058592398e-01, 8.826947846308628165e-01, 3.252582364654237335e-01, 7.538846848185660754e-01, 3.697416209262888720e-01, 8.840993256729029470e-01, 2.949478984469800502e-01, 8.099437267461961909e-01, 4.826926897780329240e-01, 8.216157599935952627e-01, 2.415426760038904760e-02, 3.417759514601914628e-01, 2.649984091238623551e-01, 7.274375397398686882e-01, 4.715712496799379094e-01, 7.763692411773696067e-01, 8.993490780233853038e-03, 6.266484122620132879e-01, 3.586210465345199272e-01, 6.195286697718956903e-01, 7.928886059884552306e-01, 8.390155156700951355e-01, 6.360411073540660487e-01, 8.048767748213897510e-01, 8.652257742255506923e-01, 6.252249309456026083e-02, 4.302504051154539821e-01, 2.392912219439755628e-01, 8.147950489733740698e-01, 9.832691665367950806e-01, 1.618661106087480595e-01, 5.005212107501468832e-01, 7.637740622475759356e-01, 5.694983383097798058e-01, 3.369093615802979946e-01, 3.216547770604795131e-01, 3.342086567979146716e-01, 1.407482157001238576e-01, 5.749228900939080955e-02, 8.728265154654140101e-01, 1.346987643323745987e-01, 9.067538544026151337e-01, 9.612728639627030613e-01, 2.830879048299940193e-01, 4.992077347477651833e-02, 2.876729944111346970e-01, 2.389291444304548762e-01, 4.974274583633278013e-01, 9.478336815432415463e-01, 6.212629539738068196e-01, 3.760153156284072873e-01, 6.733044871974099843e-01, 4.180783444565231988e-01, 1.104947212835369896e-01, 7.822058763331600773e-01, 5.780360406386690908e-01, 2.874653690964267816e-01, 7.427669015081836412e-02, 9.906976764661137302e-01, 8.122826197967402129e-01, 7.204195979011412954e-01, 1.955917231393553557e-01, 7.664476444809876776e-01, 4.710043938077759229e-01, 4.121310870388726899e-01, 6.876206371678513785e-01, 9.062161339124497061e-01, 8.351783497211191509e-01, 5.187004360375059575e-02, 1.967701996613060444e-01, 5.595141203264091256e-01, 6.407930311094373055e-01, 4.065927105333349556e-01, 4.436796447217872252e-01, 6.668200210005345019e-01, 3.356740643762232135e-01, 1.423109417831219803e-01, 7.694444821973795978e-01, 5.943553214847701049e-01, 3.735832554811368000e-01, 9.570190829004242283e-02, 8.698241233258227068e-01, 3.779916639030009851e-01, 9.976248991005087774e-01, 3.622648417462636106e-01, 7.323389885698085022e-01, 7.584599722417472156e-01, 8.048364220522976620e-01, 7.625102563783368037e-01, 9.969183261490873749e-01, 2.022581413606129308e-01, 5.994392891642910115e-01, 7.595555317120233907e-01, 1.143728360910619551e-01, 1.129587389578882300e-02, 3.707482671628504201e-01, 2.029463664314508087e-01, 3.285249698903095483e-01, 1.838852512824286078e-01, 7.957181476231993678e-01, 5.270782581868738159e-01, 5.014452982016565086e-01, 7.573736617557124129e-01, 8.737487553471052770e-01, 8.704476819894014783e-01, 9.922925068111133617e-01, 8.672977276636183175e-02, 2.538697293035908631e-01, 5.113520443499871559e-01, 7.104327274967808803e-01, 4.618459931532877816e-01, 1.737475004582364202e-01, 8.467947163439859537e-01, 5.842272118341412801e-01, 3.438088635581483810e-01, 5.250054258029319687e-01, 2.452069930376722662e-01, 9.409458820493422637e-01, 5.117395863413565227e-01, 6.511238365386884386e-01, 8.060312375894713721e-01, 9.014525159118286224e-01, 8.220218016781696280e-01, 1.439892070079520081e-01, 1.784323718151381022e-01, 3.443102266579199933e-01, 6.131385083942317848e-01, 6.512612008300078248e-01, 6.121910647771177105e-01, 6.486235449997214131e-01, 5.441805363574112597e-01, 2.706120583933655510e-01, 2.973981599727664737e-01, 5.722385408889854030e-01, 9.946022537613231629e-01, 5.609204183037199698e-01, 8.467650146237948316e-01, 9.622740535243534676e-01, 4.327932991973577059e-01, 8.793505310823203081e-01, 1.580762484856838013e-01, 5.200664451189086490e-01, 1.928864455623849894e-01, 4.348971770351887645e-01, 2.366843995258127720e-01, 6.331404448739403890e-01, 4.182202191922156781e-02, 1.265379342167188281e-01, 7.223993366311496356e-01, 2.490329726903133811e-01, 8.349531108764100817e-02, 5.551431851295284270e-01, 5.949171631142515793e-01, 1.536424154124628461e-01, 3.546947077038416496e-01, 7.983903046742818477e-01, 6.425188471400081758e-01, 5.548100614459705593e-01, 8.373466298250940021e-01, 8.885454106584677048e-01, 5.049407400858870743e-01, 5.697654582685784952e-01, 3.173465527959385413e-01, 8.632977629407360132e-01, 8.009579239306560128e-01, 2.903484114817805328e-01, 2.142953958433053696e-01, 8.585731746631165562e-01, 4.646792850223136484e-01, 6.302041411648026115e-01, 8.404746036080347205e-01, 7.640265489479260985e-01, 6.798441984368099045e-02, 7.106038152440949940e-01, 8.424660803127167474e-01, 4.908958594371887196e-01, 6.805357281814754522e-01, 6.562825249274563122e-01, 6.785111637629461789e-01, 2.891278229931579791e-01, 3.967733566713473881e-01, 4.275466235616619537e-01, 6.370714080675887736e-01, 7.335913725792347906e-01, 8.181025596939359712e-01, 7.365739748384003693e-01, 8.640824246110094808e-01, 1.658872238714639291e-01, 2.596382685452205408e-01, 7.152776186282365778e-01, 8.124671778889959173e-01, 8.267399383929653345e-01, 9.922510513573845614e-01, 8.625047300638738479e-01, 6.809183613726282891e-01, 9.279577965728841304e-01, 4.126834772190246525e-01, 3.449177476792031349e-01, 3.688436201691966398e-01, 4.903929731527031377e-01, 4.624331543979228187e-01, 1.507192129410839243e-01, 4.838662598083151578e-02, 7.852566998596332004e-01, 7.917284333299278165e-01, 2.768914293056823905e-01, 9.882594557304887894e-01, 3.930021735435511587e-01, 2.276233437208411703e-01, 3.812108540217645780e-02, 8.717730609098328642e-01, 6.367595333683283565e-01, 4.628309813272680762e-01, 3.376921087393784937e-01, 9.389416954520491965e-01, 6.902217287124479128e-01, 2.975475123013150425e-01, 4.382354059492502563e-01, 6.253242870959122568e-01, 3.027797397603591567e-01, 1.313087754568912635e-01, 7.966828816356855691e-01, 7.353818648215157405e-02, 7.436439318918783847e-01, 2.664608929557849559e-01, 5.938834893017814753e-01, 5.798781674507822587e-02, 9.495458402356282690e-01, 9.917817427983929290e-01, 7.293585560142207269e-01, 5.675210635360511402e-02, 2.649321085840241619e-01, 7.716994720806708008e-01, 7.139974218941735895e-01, 1.263857938515706991e-01, 8.652862876833393724e-01, 7.122693900759623498e-01, 6.130150497881897698e-01, 9.816941069340494597e-01, 1.722917562841091987e-01, 9.451326317340675853e-01, 7.070433484770429766e-01, 2.634180540769628931e-01, 6.101781463963176222e-01, 8.204248562481726570e-02, 9.160697918762393810e-01, 3.456497773554421116e-01, 4.291098457404290412e-01, 9.717999103954247375e-02, 4.894349602584596726e-01, 9.157585477050494971e-01, 6.293358658383625404e-01, 9.881243957221391705e-02, 3.252711503417217154e-01, 4.352246230197900911e-01, 4.947761814212425779e-01, 7.256463313838145135e-01, 4.278426032165880688e-01, 5.668947306227831717e-01, 3.976576575081143261e-01, 9.005402481354498612e-01, 7.371109317140432937e-01, 2.804799082183057068e-01, 7.600476583748211334e-01, 7.770717094803470948e-01, 6.122799836009702457e-01, 8.853873715885743900e-01, 2.691701774113057222e-01, 2.449647534045186134e-02, 7.855547383560218533e-01, 7.757382616037997725e-01, 4.148329627575257361e-01, 2.807657768495430139e-01, 9.334594918883128978e-01, 8.817250021017090100e-01, 2.715854906232443300e-01, 9.732355008810433805e-01, 5.226889471992134800e-02, 8.482160988866762619e-01, 7.157228651998920332e-01, 4.240446734130902673e-01, 6.317366523268274081e-01, 5.811832085915513701e-03, 3.555720132201718453e-01, 1.298163095288847046e-01, 9.851129517762325927e-01, 7.928739168155340966e-02, 3.420661559145672936e-01, 3.377609148829840979e-01, 9.291843006140113603e-01, 6.574635714250052221e-01, 8.249611037493971288e-01, 5.580618803838911512e-01, 1.503712877203872700e-01, 8.985623584022096599e-01, 8.606207711925280002e-01, 5.740698772164547492e-01, 2.747339133843169634e-01, 7.211664805988116100e-01, 7.539331665895601109e-01, 6.904127200711365209e-01, 2.836961412112053438e-01, 9.443707750458874006e-02, 1.392417411315290121e-01, 2.655968851659369356e-01, 8.671810256824613594e-01, 6.632677432731509670e-01, 3.324997556675296506e-01, 3.552448988376366579e-01, 4.328562186825343217e-01, 7.558747931810125831e-01, 5.369962530996501560e-01, 9.470814073838511593e-01, 8.481124642259055824e-01, 5.009865615666326821e-01, 2.188434168400060220e-01, 6.874334408958640008e-01, 3.156869303374192359e-01, 5.372523447856423218e-01, 3.386475134958553679e-01, 2.424295076594179532e-01, 6.724295638335916481e-01, 7.402945466112468287e-01, 9.052174229515149717e-01, 4.678373240395410915e-01, 5.178940005147221193e-01, 1.712826848984704553e-01, 2.355517690970073685e-01, 3.085382138879155800e-01, 2.068181421056591862e-02, 8.897262419959300894e-01, 9.169429737102033906e-01, 3.575315644153787553e-01, 6.366773950282158534e-01, 4.007899629994166601e-01, 1.167032124547987548e-01, 6.337245533915032702e-02, 3.947505206020426316e-01, 6.751261616789916431e-02, 5.560412548002731103e-01, 9.821985880331155494e-01, 6.744970884563227242e-01, 4.479083754122064609e-01, 3.567023756652396016e-01, 9.892632869978007504e-02, 2.596132291236047940e-01, 7.980453794018002034e-01, 3.799865744604071782e-01, 4.530930267472755846e-01, 4.361815668304320215e-01, 3.699456918232807978e-01, 2.682894628702597317e-01, 5.390644016747142553e-01, 1.748711133841063803e-01, 9.882319489150223069e-01, 5.950798344233833026e-01, 6.733171776623587679e-01, 1.629319137535798490e-01, 7.502574408900878344e-01, 4.152765446462060583e-01, 3.437792572257550860e-01, 3.123200796345632635e-01, 8.989173584003877782e-01, 7.632657890799270373e-01, 4.877565561724035437e-01, 2.269995103579781903e-01, 5.845793451869422119e-01, 1.659607259625373379e-02, 9.941642036905397051e-01, 9.804578539367067025e-01, 4.351564855177725288e-01, 4.918141660271430071e-01, 3.642554842788965908e-01, 3.332078759196215739e-02, 4.011929751158543889e-01, 1.995947709160173777e-01, 9.358492099593560543e-01, 9.367910972898125799e-01, 1.570325614305846315e-02, 1.498256999974245662e-02, 9.995269929451068291e-01, 8.411672341193654479e-01, 9.772305686297788618e-01, 9.785747584034532043e-01, 3.666073002995788865e-01, 9.402356717188264934e-01, 5.137772000129720018e-01, 1.619300165265306068e-01, 1.290456475915680024e-02, 8.881806906201510365e-01, 8.328816590419055865e-01, 9.784722722527549044e-01, 2.955349108722238327e-01, 2.575867918672771206e-01, 8.898802892891262140e-01, 2.786326403937528506e-01, 4.877875306976264258e-01, 6.740102471713889098e-01, 1.269376130513407419e-01, 3.777928149293726112e-01, 2.572710825649956665e-02, 3.970029667643930615e-01, 4.316825687113444721e-01, 4.955821952812834996e-01, 8.368726349965081024e-01, 5.260409088661192056e-01, 5.144944575916687857e-02, 2.703472994641696880e-01, 4.415292540079615025e-01, 6.758023791015448367e-01, 7.881118599413513559e-01, 7.620646077401691532e-01, 6.313590772658225214e-01, 2.483233579304721106e-01, 9.939296354094684371e-01, 7.050681302181787125e-01, 8.768496207850680069e-01, 2.434664893278240261e-01, 6.631937439432571413e-01, 3.858550778742708132e-01, 8.641304968658070074e-01, 6.818813713805854659e-01, 6.019611403310799469e-01, 8.696856217784011411e-01, 4.879988026770535336e-01, 9.185491733467398001e-01, 7.267513863572605537e-01, 4.977551525926029452e-01, 2.022256758066758309e-01, 4.552485267760467136e-01, 9.559578606460352734e-01, 6.872182056879905243e-01, 5.407911103866601676e-01, 6.672895820571274061e-01, 8.238364738635636231e-01, 5.200313004019895269e-01, 9.580878598514896982e-01, 1.364587472311562522e-02, 9.523604723046000808e-01, 5.397957054733348858e-02, 6.281758731531221773e-01, 9.237292024929845760e-03, 4.581817031285463637e-02, 1.572761617970184211e-01, 7.607655889288281736e-01, 1.013207465522242695e-01, 6.852247581275802135e-01, 6.147770419805832498e-01, 5.886474297320339888e-01, 8.265633426331863154e-01, 9.774032391084029603e-02, 6.448412096082106748e-01, 6.976976030781284477e-01, 3.989238342591142072e-01, 5.210500300424786291e-01, 8.834506015329734660e-03, 5.657153630696760693e-01, 6.617517765907660054e-01, 2.162014768787946517e-01, 9.556806400070849694e-01, 1.438846594401057277e-01, 4.718267908366020613e-01, 7.530150111468439378e-02, 3.817838364338062562e-01, 7.071747385580297030e-01, 1.511975939863261509e-01, 7.907708968830055030e-01, 2.068691152520797383e-01, 7.715171792131088058e-01, 3.594556621487862147e-01, 6.307234106763305315e-01, 2.690730899959945521e-01, 6.444738035691692790e-01, 4.425278211253418914e-01, 1.399598087243090760e-01, 9.790604540195720074e-02, 3.620355384635773888e-01, 5.418301186037992601e-01, 6.923495153231441490e-01, 7.820339425113855825e-01, 4.167546563103832757e-01, 4.126524538237543172e-01, 1.317290690580585344e-01, 3.410495600383243731e-01, 4.029670919062617873e-01, 5.883335842393364601e-01, 9.156494297843724706e-01, 4.973710176133540051e-01, 3.357767885611041558e-01, 5.574745090416978188e-01, 3.100194112886370257e-01, 5.644379050851008328e-01, 8.347594899874911656e-01, 2.894481592641873213e-02, 5.605281273998010683e-01, 1.982827602121437494e-01, 8.171865720712901959e-01, 9.275644932015197908e-01, 8.375456019103568739e-01, 5.764387854454433580e-01, 2.531639865592307248e-01, 7.119203589007718769e-01, 8.107554377104647658e-01, 5.048082956680852856e-02, 6.433448136355736091e-01, 9.339436242875601701e-01, 6.141237832821933029e-01, 2.766966677598604596e-01, 3.977322821173904233e-01, 2.906567568692288162e-01, 9.990676534883752291e-01, 6.787539890737606108e-01, 6.723929844715897941e-01, 2.660556798513837307e-01, 6.797100230309900404e-01, 3.781129381601470163e-01, 5.512187243688669858e-01, 8.182170539390526409e-01, 2.240026614242661973e-01, 1.951600068673634558e-01, 3.473164792136100854e-01, 6.154618874854067556e-01, 5.678558637035934220e-01, 5.616519754396147590e-01, 8.410997358020252390e-01, 9.162456075731973959e-01, 8.717446567475525265e-01, 3.643296473876841413e-01, 9.368531330201015361e-01, 6.035647015989024089e-01, 6.155718005610791854e-01, 9.767332442481265753e-01, 9.444021330099983125e-01, 8.349297828344995898e-01, 8.795952005277313246e-01, 8.868143497448188750e-02, 7.463322553974264251e-01, 1.213046334273371746e-01, 1.894277383591705943e-01, 7.579195558982309011e-01, 5.836289623596802034e-01, 4.941063923725174112e-01, 7.030396514847375711e-01, 7.607315502150245878e-01, 1.337602011910044020e-01, 8.841559104242391331e-02, 1.406428802410780998e-01, 1.591743986129874611e-01, 6.185204977789270364e-01, 4.765488203034195513e-01, 7.880888433448205443e-01, 9.646178446526977313e-01, 8.056912401354816566e-01, 7.375602305552695359e-01, 2.300933820894013326e-01, 1.579836038761538997e-01, 8.472989704951924272e-01, 5.204649634051017326e-01, 7.953376107057662514e-01, 3.263110722377281503e-01, 7.838595093780540424e-01, 3.507073082337729408e-01, 2.116348528044986743e-01, 1.648767331919847035e-01, 1.682701399448562063e-01, 7.450207925526068919e-01, 4.188091142274978362e-01, 3.123814841833359446e-01, 1.885722221343736835e-02, 9.188157949335217234e-01, 2.539527451711252604e-01, 9.164490360466311936e-01, 5.628241091286131370e-01, 4.999888406095376880e-01, 8.306399315569453767e-01, 8.053763479177109552e-01, 3.190945129174730388e-01, 7.434776596254233372e-01, 4.394494851404311397e-01, 5.349557752176949954e-01, 9.000102220634631500e-03, 6.588768468817352009e-01, 4.125801192372347548e-01, 3.882543810451777877e-01, 9.723753599147052507e-01, 6.658859372250908182e-01, 9.977724342495444265e-01, 5.262070529528705132e-01, 5.707634266942032131e-01, 5.734952600226488340e-01, 3.080473013554826944e-01, 8.448090054328625254e-01, 3.282512856529438139e-01, 1.057534312123403764e-01, 7.669523480912502356e-01, 6.543278378073992263e-01, 9.583211889670241179e-01, 5.064908529972609319e-01, 6.412674468964677521e-01, 7.633107731889220426e-01, 1.205783682794836220e-01, 1.343259220094698281e-01, 9.824163249293496047e-01, 9.162315049478655382e-01, 8.362539889643415547e-01, 9.820394087613384393e-01, 6.868529760309050047e-03, 7.260821606500115211e-01, 3.861511920410855558e-01, 6.953414859504062351e-01, 7.338318112758331901e-01, 8.895793620173587657e-01, 8.865082938375691279e-01, 7.932657530419696679e-01, 6.224347038429399286e-03, 3.129152229358356241e-01, 9.352501152594736578e-01, 6.304297588789844475e-01, 9.621301633461679659e-01, 2.704226729487477776e-01, 6.931452254686254477e-01, 2.758730778923337290e-01, 3.367796293489244697e-01, 5.065241938169284808e-01, 4.365078443949348963e-01, 7.831424413111324201e-01, 2.246365045169407271e-02, 1.554234846613079257e-01, 3.074851090632687578e-01, 9.234549988055020808e-01, 9.788947532355042336e-01, 7.285315610503333428e-01, 6.772995201706895063e-01, 1.155007535599132940e-01, 1.980828995278486326e-01, 5.946925695513349819e-01, 2.246255188917798129e-01, 5.519810478102304963e-01, 1.340487912871674535e-02, 5.348700422818687406e-01, 8.207229169129985902e-01, 8.314399245185694065e-01, 2.188642795726612397e-03, 1.328352708436001117e-01, 1.653350719065035668e-01, 4.288032066515798379e-01, 1.376268616554669755e-01, 6.459982049924862801e-01, 7.111771855487748761e-02, 8.296809969572664922e-01, 8.688827804240939479e-01, 7.665548855826078700e-01, 8.072787684347073611e-01, 6.677808943150173038e-01, 3.525162183679218519e-01, 5.484581509631929475e-01, 1.969541810276398963e-01, 2.805611038390554701e-01, 1.581699087287756489e-01, 1.103978331233469862e-01, 9.569439699115304121e-01, 1.823287068692189816e-01, 4.047714932358733031e-01, 9.185366698830781107e-02, 3.784805631786948288e-01, 5.897616192943351265e-01, 5.078985126311926779e-01, 7.002418933283551805e-01, 9.971999065753243130e-01, 9.519402643306238421e-01, 7.137332764759596326e-01, 5.382883144846640766e-01, 7.395661990632796945e-01, 3.288826862702899367e-01, 4.815801108558386869e-03, 2.281500317337047667e-01, 4.154284990391106103e-01, 1.790331893895931170e-01, 4.035571023383439648e-01, 5.451297015493443698e-01, 3.276843783275960043e-01, 7.371427736664141195e-01, 2.962586674802039632e-01, 9.874252608773481654e-01, 4.017394180586978392e-01, 2.441269075528441634e-01, 6.355366065138596809e-01, 9.104030890086981520e-01, 8.138582543800690905e-01, 5.900221378023073893e-01, 4.993416804802781606e-01, 9.202412607560492841e-01, 6.346529880423360526e-01, 9.386006564956561604e-02, 4.230881544903105640e-01, 1.994119719766155596e-01, 3.677665606837302731e-02, 3.230960977704286918e-01, 8.142103259418915773e-01, 7.417589156231482184e-01, 9.249171829083761009e-01, 9.007531320156048071e-02, 1.054976082457881881e-01, 2.178307786572991622e-01, 1.660109860295540807e-01, 3.116563754595201852e-01, 1.359184592190100793e-01, 9.096344895285483068e-01, 2.339456396048372189e-01, 8.144889143534168596e-01, 1.285844885752985833e-01, 9.295956661753846939e-01, 9.362626687461579333e-01, 9.011643754458527056e-01, 4.663400154206724935e-01, 6.018238349369495754e-01, 5.840451668300218613e-02, 3.247212179219660655e-02, 7.089277574789303316e-01, 6.582777021417157703e-01, 6.669867059262425402e-01, 3.417830035299680436e-01, 5.609146990311961734e-01, 2.032991708094602223e-01, 4.352890274544007898e-02, 9.959615039265760084e-01, 4.278431032802880729e-01, 9.191988151630777759e-01, 9.295970292379222011e-01, 7.426566812932603456e-01, 9.231724035057056188e-01, 7.850832690711706530e-01, 5.200340886740156127e-02, 6.629495886924544612e-01, 8.022764490517734215e-01, 8.164431205679388570e-02, 8.628415680028425072e-01, 1.979597778717871737e-01, 6.184011782184184458e-01, 8.819535510238014631e-01, 3.802996143730752454e-01, 7.599020639490179363e-01, 2.377995283282606509e-01, 6.130654247405302737e-01, 1.720124478281814806e-02, 7.849552353867640386e-01, 4.035228155129040317e-01, 7.274418535573436984e-01, 3.704285172241850166e-01, 8.356736559887204541e-01, 9.588159681797993050e-01, 1.480645611431024265e-02, 1.585674657959774692e-01, 2.377020357240091364e-01, 4.930255703041100945e-01, 9.256244286236214869e-01, 1.530609571330933394e-01, 2.871871833499886617e-01, 8.503316702992440579e-01, 7.558398889579375224e-01, 8.205032239796328231e-01, 7.281614549102228828e-01, 3.753459723971474538e-01, 5.276620511792702306e-01, 9.633545500163454012e-01, 9.714804353436831130e-01, 5.737032688370966582e-01, 5.325131593097642835e-02, 2.976137302585150080e-01, 5.531785082181672752e-01, 4.477905459906130203e-01, 2.316738767707255953e-01, 6.322161244731577812e-01, 8.018754226050603950e-01, 1.837032774057153484e-01, 7.674702466136305024e-01, 5.185922526647599451e-01, 5.427498853081217378e-01, 8.061048456443379306e-01, 6.271389303205524568e-01, 4.250914790313836678e-01, 8.426441458898610293e-01, 3.435478656688333299e-01, 3.337473185336282122e-01, 5.691381906866285201e-01, 6.290976920691191410e-01, 5.838467184828008971e-01, 3.042571868044658956e-01, 4.971686346316298577e-01, 8.967529949956960511e-01, 6.264564425033705142e-01, 6.621640386622430485e-01, 1.034448705745544955e-01, 2.122812221872691918e-01, 1.529564681301721629e-01, 7.685762836233003270e-01, 8.172942101283855454e-01, 4.073631185000491373e-01, 2.292280970710583177e-01, 7.333643749171454840e-02, 4.392597505389634338e-01, 7.337965592774590151e-01, 5.773144352514739674e-01, 9.668114357539350223e-01, 3.927027283790161527e-01, 3.679699630905374774e-01, 6.753542432143258001e-01, 7.201921655293210822e-01, 1.239461414842031317e-01, 1.113387413217812733e-01, 6.130313780288328962e-01, 8.731872639363870425e-02, 7.809309595969653461e-01, 9.797123739662256803e-01, 8.509648400066284202e-01, 2.441004636300294905e-01, 6.072975313625577076e-01, 5.468593677867450431e-01, 5.188165332405046681e-02, 2.198480299017747941e-01, 2.912874665091104154e-01, 1.928602236034021034e-01, 6.336847900159602309e-01, 1.362085165577743562e-01, 6.263454868135545084e-01, 2.056447060771016133e-01, 9.728285192407960524e-01, 7.478354664813574582e-01, 6.020350649140683297e-01, 3.059884490697795112e-01, 5.481446166935499686e-02, 2.551583713122353436e-01, 7.535692929650037453e-01, 8.072855015147811786e-01, 7.895446943979733678e-01, 1.532089653810921603e-01, 3.286679869046815750e-02, 4.081634406128509251e-01, 8.085522310467334606e-01, 1.025836130650710221e-01, 6.376999288360886142e-01, 5.742302620323214146e-02, 6.113186856979746509e-02, 8.617573610719200250e-01, 5.860559146044370671e-01, 3.349625265356489523e-01, 4.812542667325687695e-01, 2.385813635440441505e-04, 6.229947355568536960e-01, 7.371850289683401503e-01, 7.587833045620829830e-01, 5.059882882433336393e-01, 8.897055820285811878e-01, 5.957614830632392833e-01, 1.138439642380586481e-01, 2.488084928852082323e-01, 6.286299938390202957e-01, 3.600325107978866734e-01, 5.908354929299179936e-01, 9.545748664322199761e-02, 1.485913851870250268e-01, 6.148649022948939891e-01, 2.427760354696271161e-01, 1.157979861508415809e-01, 3.440493352808995375e-01, 5.511621532498319764e-01, 4.603074185399901874e-01, 6.891891064212462004e-01, 4.427187097120249271e-01, 1.000223221856921252e-01, 3.944206795168607171e-01, 9.926877807076833760e-01, 2.346420132040893114e-01, 6.014846670521466487e-01, 2.371891748292506985e-01, 7.223827089472868723e-02, 1.197059576329091851e-01, 2.193232789430960006e-01, 1.530715203522091672e-01, 6.443708370901423121e-01, 9.376135494317834329e-01, 5.120334379619577714e-01, 3.683150443048291423e-01, 6.485106695102008656e-01, 8.091735840117295631e-01, 2.534930314169522303e-01, 1.491445488769438908e-02, 4.933238854078925706e-01, 4.992572302956843067e-01, 9.925728429676922149e-01, 5.650854185135510965e-01, 9.848682651203342076e-01, 3.176529279709334186e-01, 3.771836928979345194e-01, 8.890754503764430883e-01, 2.184566608458802239e-01, 7.384923408635952757e-01, 8.331869449146663831e-01, 9.364474933376168986e-01, 3.581317464407188789e-01, 1.654182496927522339e-01, 3.952739104500470058e-01, 9.482137304263356103e-01, 6.429771443240108741e-01, 1.774150028121402323e-01, 1.803874753537355602e-01, 2.996832187413660531e-01, 6.065221690139669351e-03, 1.287996982158773063e-01, 2.100617578444111677e-01, 1.361063128731509475e-01, 9.498628684143786693e-02, 5.207048089631086674e-01, 9.592736934549599415e-01, 8.672952095724547616e-01, 5.470392465648605818e-01, 3.449679800316184930e-01, 4.884414073074367368e-01, 5.200974413276581165e-01, 3.835455336882798161e-01, 5.169806499441987890e-01, 4.846604382314161907e-01, 2.078025015824536970e-01, 4.844987895075896223e-01, 1.506915642691536439e-01, 7.286031448241033770e-01, 1.871149838997100412e-01, 5.838797604972844058e-01, 3.065554390939534413e-01, 9.222240661480154977e-02, 7.691299822076932413e-01, 5.130768000184363631e-01, 5.732582425080562372e-01, 9.671139999997168113e-01, 4.922536192068363015e-01, 2.966084556961283702e-01, 3.701728119336067935e-01, 1.668297473684342280e-01, 5.706123895361044918e-01, 1.694765287103409401e-01, 2.972451974377768869e-01, 4.443757417967911238e-01, 6.408658381163568896e-01, 4.846618517275712995e-02, 2.132266710286221389e-01, 3.131037975397727435e-01, 8.399284314646812133e-01, 6.900727841921495687e-01, 5.097954102460470205e-01, 7.791062283963589019e-01, 6.120820810508655896e-01, 8.204624010310456184e-01, 9.449137592135664621e-01, 8.939115009714136695e-02, 9.673449418796591370e-01, 9.113165024730333907e-02, 3.119552307415729767e-02, 6.935205267382246186e-01, 8.251257815177346355e-01, 9.267060140855927219e-01, 6.430435537937285728e-01, 4.924595839400903730e-01, 9.566508774960122974e-01, 5.105714971323839224e-01, 6.948609776088146006e-01, 8.976688073841223581e-01, 3.743974286763930293e-01, 4.423005553353220876e-01, 7.705802107729154971e-01, 7.641656433795790404e-01, 7.680828636809337029e-01, 8.677091177268281275e-01, 7.202828112008980987e-01, 7.414554597048376161e-01, 6.333405645458878297e-01, 7.308634190511046347e-01, 8.074982841391972199e-01, 3.344399769442155113e-01, 9.440558500011301257e-01, 4.101125222915403268e-01, 2.327818939666556064e-01, 9.921894753086781815e-01, 6.038348588483250651e-02, 9.909943069666696802e-01, 9.879862740814226996e-01, 8.092002578958207293e-01, 2.983378430453060837e-01, 1.694691037061018535e-01, 6.010065423407625618e-01, 2.209740611579187053e-01, 8.009040076174637202e-01, 2.644251110559187601e-01, 3.668323292319527473e-01, 7.560183973621165121e-01, 3.459602211477034728e-01, 5.675203573402359813e-01, 6.619020481103325970e-01, 2.058154545728230200e-01, 6.023616348765515882e-01, 5.804828674291513391e-01, 1.771142393923750835e-01, 1.265992107718559405e-02, 6.205487187640417179e-01, 1.667247384952569855e-01, 7.780943580084017652e-01, 2.957349863402994883e-01, 8.651542382229139294e-01, 9.067077918946212511e-01, 9.987394314333548628e-01, 5.252100369166109450e-01, 7.237149367166380298e-02, 7.365702894245285126e-01, 5.305175173099259123e-01, 2.413205305218286412e-01, 7.112551405413883865e-01, 4.954273451351232094e-01, 6.586955966335885648e-01, 6.828595850478261786e-01, 7.403633155820942280e-01, 3.267775096622115849e-01, 6.189111084524417938e-01, 8.581945038607453613e-01, 2.314162863466523445e-01, 8.426861174158331025e-01, 1.231687119036968259e-01, 6.061795535412315417e-01, 9.855498829328702692e-01, 2.405830075716683947e-01, 4.133672581510253741e-01, 8.497209513231853695e-01, 9.492743240593525256e-01, 7.085467528388522673e-01, 2.879727528139620074e-01, 3.608635186447098353e-01, 1.393125034663081074e-01, 7.739110294496689413e-01, 3.525524483594981717e-01, 7.358529601489207650e-01, 1.909402256126769837e-01, 9.777834949869267100e-02, 4.418217634803943694e-01, 1.808454580627719688e-01, 4.043583531277017973e-01, 9.508143898854642950e-01, 5.707080709926745099e-01, 7.144881411001734461e-01, 5.543691529076235636e-01, 6.224062720711678320e-01, 6.351329789340895426e-02, 2.253582390063713081e-01, 6.030018104697669745e-01, 5.072633780766577782e-01, 6.914971768017469378e-01, 6.319070236631244564e-01, 2.444943865476522371e-01, 3.138387957969687170e-01, 2.772807863531577821e-01, 6.565271456964865138e-01, 9.586238545278240319e-02, 4.035205497674216879e-01, 2.428414712972496725e-01, 1.849919041250819643e-02, 4.338733298252666626e-01, 7.394396089059830646e-02, 9.136119237391571168e-02, 2.893769420782745794e-01, 3.047400417467104328e-01, 3.755362496219776663e-02, 2.338576699346947008e-01, 2.555823988423152615e-01, 3.684323381841134726e-01, 6.053328388965205642e-01, 4.271496618292480174e-01, 1.848678682130187878e-01, 8.889420764399822428e-01, 7.303500709045938066e-01, 8.176980858948840192e-01, 5.211755484210111034e-01, 7.783511298695044989e-01, 6.775093377553166318e-01, 6.301680570262157000e-01, 6.323276376908899543e-01, 3.173635398400426189e-01, 4.420634380313719913e-01, 1.471891263028306529e-01, 6.785870331363503816e-01, 1.071498956597922714e-01, 4.246463997564753345e-01, 4.139601313269350435e-01, 5.277729381432858524e-01, 3.636361905203689404e-01, 2.561109621283655380e-01, 8.148565620265709741e-01, 7.460004277152518792e-01, 2.995514195609972341e-01, 2.100147125123399960e-01, 1.330087435747525637e-01, 1.614789421163958516e-01, 5.478246259423085185e-01, 7.317415455604205921e-01, 1.909562923030551085e-01, 7.629828850247090122e-01, 3.027710975755265044e-01, 6.731355288911993195e-01, 9.466311121215280622e-01, 9.835132592966261411e-02, 6.376399146067155410e-01, 9.975504057144213288e-01, 9.975941092046775038e-02, 1.562531981519059074e-02, 5.376761413571456982e-01, 3.417498838592940569e-01, 2.161198822370139772e-01, 5.740415355483025062e-01, 5.072015267784061310e-01, 4.009501257455589940e-01, 9.932958208277602452e-01, 7.162771609046626464e-01, 5.413619205646780230e-01, 2.427090927301565892e-01, 8.816819123239707512e-01, 2.396969398757948788e-01, 6.074721632627499979e-01, 2.707339331776534297e-01, 9.231765408117587057e-01, 3.682128339795963101e-01, 5.634241916083042589e-01, 5.556925901617062458e-01, 9.217636986019290823e-01, 1.664226921155990135e-01, 7.917791413947457002e-01, 1.180564879982369114e-01, 8.582879551976233534e-01, 8.645178080324820158e-01, 5.082679151671356532e-01, 7.284906104236892332e-01, 7.822385414876639187e-01, 8.130968471714746793e-01, 9.457553260304200071e-01, 6.460896216092055534e-03, 3.923583101468178791e-01, 3.933004768341831769e-01, 1.558033882839638361e-02, 7.908343189620045677e-02, 3.835719310352531108e-01, 9.326129580851656442e-01, 2.939296187855822140e-02, 3.005767972027980628e-01, 9.673336144176747364e-01, 2.320695142066156735e-01, 8.077748392980670378e-01, 4.992995841824823811e-01, 9.983563677005199422e-01, 3.224884895501577975e-01, 6.118545421719123745e-01, 8.006006350038218367e-01, 5.072217256026692045e-01, 2.568053779860873798e-01, 2.671499935846270435e-01, 2.127020215621393817e-01, 2.981814961512602169e-01, 2.752063065442320600e-01, 3.309138148936129897e-01, 4.665135967809617978e-02, 9.463553485283879851e-01, 5.893185971058814004e-02, 4.441699643368913208e-01, 4.545111971646213500e-01, 9.795853075738942817e-01, 8.380383845375735108e-01, 1.901979024097131266e-01, 3.595807831009170674e-01, 7.390250370721355155e-01, 8.347164379590232830e-01, 3.367819816043795544e-01, 6.100022640555526898e-01, 4.907570226427733218e-01, 1.860412237723406692e-01, 2.532152002966688714e-02, 8.291685033359976753e-01, 8.468714552843313870e-01, 3.236091884779213612e-01, 2.238685320099033094e-01, 6.599903071667666543e-01, 9.152573249734233807e-01, 1.668857206291884943e-01, 4.127529163465179507e-01, 7.016524962509888830e-02, 4.157644408752332321e-01, 2.778969225319755099e-01, 8.970820537860559885e-01, 1.070756124972182220e-02, 3.682243895523937827e-01, 5.838402712129800998e-01, 2.113000105433460452e-01, 7.685639719380552570e-01, 8.127526329749604761e-01, 8.568405189975862868e-01, 2.904174049083041442e-02, 3.834809132875641735e-01, 3.586366271189091459e-01, 9.035953182703682085e-01, 2.875843237911435146e-01, 6.946630986213176984e-01, 7.243546055905711878e-01, 2.432997534923240779e-01, 8.892406593946786675e-01, 4.425244039898943993e-01, 6.185771485702009631e-01, 3.393846258166545171e-01, 9.876198157880579087e-01, 2.671009271322871137e-01, 6.171539021517767898e-01, 6.306452827482393886e-01, 1.590206359402699943e-01, 9.125443785365096039e-01, 3.647586067788441411e-01, 4.770318350932937213e-01, 7.238386435910552086e-01, 3.494340586803773726e-04, 4.681637558268050281e-01, 2.936658066569970416e-01, 5.631666703283146891e-01, 8.149334592061048266e-01, 7.319888134226428811e-01, 6.095501053766207988e-01, 3.233375322266360818e-01, 9.080997734494630214e-01, 7.112161007360491283e-01, 9.452341437841672578e-01, 2.512154146343120731e-01, 8.044684137522404299e-01, 5.810136375533708764e-01, 9.523755955159195208e-02, 6.570301023252421713e-01, 6.361769591563831705e-01, 2.875226206436671261e-01, 9.318482839088690906e-01, 9.621790944915125099e-01, 4.206873131181116388e-01, 3.453622102801315874e-01, 9.555438661691184610e-01, 1.163298754224789677e-01, 2.612389973209792160e-01, 1.510107672528430978e-01, 3.487983594785533659e-01, 1.602451038224029789e-01, 4.032389020270359392e-01, 5.802513857000586306e-01, 5.739761222119773576e-01, 9.757251710017196267e-01, 9.542343552548356866e-01, 2.967415351957544134e-01, 1.693702842964659727e-01, 9.908470354306175842e-02, 4.670486712222924330e-01, 4.825322531967926043e-01, 2.663067307801629258e-01, 2.767509933648293341e-01, 2.386291913551867039e-01, 6.831316384710854617e-02, 7.405557641198606822e-01, 5.918839073633076486e-01, 2.145481463255751176e-01, 7.900138759196801974e-01, 9.771263413786755378e-03, 4.760069128289863838e-01, 2.495855461287110333e-01, 6.751555432287896785e-01, 3.381809465160567352e-01, 7.415250861548715600e-01, 7.539813455975238332e-01, 4.384541186940230650e-01, 9.817942042917471301e-01, 1.638992298512609302e-01, 4.879174481417269948e-02, 9.683991021326553428e-01, 6.310152101142163517e-01, 9.108062597209504174e-01, 7.782697714768803676e-01, 1.168137827533590051e-01, 1.362458649359052643e-01, 6.958753573141834847e-01, 3.749754703937718814e-01, 1.644304636560925126e-01, 8.957020561850721485e-01, 8.115016615646698517e-01, 7.471218747355430345e-01, 1.044811717115283339e-01, 3.542425029289271721e-01, 6.534743116344838842e-01, 4.903693456746641699e-01, 6.905672799409710017e-01, 7.816263978778325017e-01, 2.390483637333580269e-01, 5.770191140050551226e-02, 4.012181745127342825e-01, 5.254191922222992694e-01, 3.021422158728814811e-01, 1.779002838429099287e-01, 2.603703801775865689e-01, 8.201943150672375005e-01, 8.751414584448188316e-01, 2.014658023777213813e-01, 3.294579389172799244e-01, 8.195000749105794124e-01, 5.259778816199178753e-01, 6.836352720335689970e-01, 6.748905432374191493e-01, 1.759725597110148310e-01, 7.179648871953027145e-01, 8.740243063573764903e-01, 2.119362431225038368e-01, 2.234923165991304361e-01, 9.115256329181921080e-01, 8.477315210584965843e-01, 5.726958875683623162e-01, 6.623561461857394583e-01, 8.535051140097208444e-01, 9.886221043727683178e-02, 9.085912910683823229e-01, 7.789914686306410596e-01, 9.647122336226235939e-01, 5.581389588464819029e-01, 3.493394568289469038e-01, 2.235716714514257575e-01, 3.054820596669333144e-01, 2.841279427880324393e-01, 4.296533385626116752e-01, 8.446208185660923906e-01, 9.343769503595759085e-01, 4.576239674791149348e-01, 1.044215533647568916e-01, 2.427865324083046950e-01, 2.875784191344192831e-01, 9.253939982948926612e-01, 4.934365189027947185e-01, 5.115546960917192187e-01, 9.440075776907828897e-03, 6.900153052295801004e-01, 7.594111548103138487e-01, 1.444645466982601711e-01, 8.490653617330153891e-01, 8.436128283368816705e-01, 1.020802521984929545e-01, 5.710880490211850402e-01, 3.224278447897037103e-01, 3.973326565683044098e-01, 1.471718791364637902e-01, 6.577492930000902183e-01, 7.928519791677018924e-01, 7.617078329892679189e-01, 4.702761973354699920e-01, 8.483046061804679905e-01, 7.221769144022145426e-01, 3.321266081893922140e-01, 6.240032574592456749e-01, 3.059987466457483318e-01, 7.824720168135634868e-01, 7.228301678126076713e-01, 7.857211473639140742e-01, 3.994281668631811111e-01, 7.909019911629456834e-01, 4.063559718720686220e-01, 4.795151160016192238e-01, 1.171501840814459516e-01, 3.216983723824483055e-01, 5.272913561630998558e-02, 9.002924799323658300e-01, 2.550061118815683536e-01, 5.163326042792114601e-01, 6.727480276906350198e-01, 3.951246514581238101e-01, 8.466108016034541439e-01, 8.536335813975420850e-01, 8.854353090145339333e-01, 3.620059492644165378e-01, 1.643658836758444056e-02, 3.013587188095513403e-01, 5.869861271639983391e-01, 1.032076956284120745e-01, 2.659823587964847413e-01, 6.578398509866612009e-01, 5.493045919385444176e-01, 7.826947451881252071e-01, 9.701664389909214758e-01, 9.035125657256193321e-01, 2.500821964165424460e-01, 3.077028528408805030e-01, 6.844155202061802390e-01, 7.767194903971206266e-01, 2.211311746987204840e-01, 4.847182253974738897e-01, 8.760176392095098130e-01, 1.465476209462631962e-01, 4.672300763779506094e-01, 6.759163240315483323e-01, 1.196507207411945384e-02, 6.730542638087303464e-01, 7.680855330627200939e-01, 7.705901365363335698e-01, 2.050297062055322916e-01, 2.615313266737296360e-01, 2.028988083746043405e-02, 6.243407892961572170e-01, 4.149158054111121707e-01, 7.469538119621743633e-01, 9.425763525630534989e-01, 6.929275922197478677e-01, 7.179757785216398513e-01, 8.064007724848117897e-01, 6.956160427226446563e-01, 6.642044608575592424e-02, 2.972277398462618292e-01, 9.197508865738073247e-01, 8.841843505567049677e-01, 9.646488460773567919e-01, 7.800467100498476025e-02, 8.346402760491494766e-01, 9.935095032954492644e-02, 8.551399603662442062e-02, 5.594371067091511440e-01, 1.110988382339438418e-01, 8.996228158600708680e-01, 6.010116131797712535e-01, 3.339822137149602854e-01, 2.416668498621024064e-01, 1.521385793880017656e-01, 6.633840770416634669e-01, 2.158178607060837750e-01, 9.260873861819580721e-01, 2.256845587353637217e-01, 2.992307291798165236e-01, 4.431396092303642176e-01, 6.077108339699793804e-01, 4.939760018689795529e-02, 4.674675837008679391e-01, 7.444544671561956761e-01, 2.259735765417633102e-01, 3.952098378378663401e-01, 5.318103580761506244e-01, 8.739353576446130534e-01, 7.091788019610714144e-01, 3.869044544097077765e-01, 4.707357838772134873e-01, 3.902581121529555275e-01, 9.529292190136781082e-01, 4.159091813704759999e-01, 2.229879441327070611e-01, 9.929631312520171837e-01, 6.157244746278205394e-01, 9.684857898103335083e-01, 6.997526384183032633e-01, 3.776958611166645469e-02, 3.803220896908551252e-01, 7.878147908466655025e-01, 7.802018953017858527e-01, 1.523032629675721006e-01, 1.670739972773662152e-01, 1.224530202992746425e-01, 6.999850936912330734e-01, 2.678735765562617055e-01, 3.881738580107298997e-01, 1.418225651800876508e-02, 5.230956977698131283e-01, 2.033611054108186086e-02, 6.228499420654254326e-01, 8.871055909572259646e-01, 5.522940503996268680e-01, 2.786679541852497555e-01, 2.226310160660898568e-02, 2.663806042174151067e-01, 5.385459273121134816e-01, 9.909219046006809695e-01, 3.117930351025151037e-01, 4.204077011986351864e-01, 6.299040937201679791e-01, 7.438225333458385879e-01, 8.992330216513899632e-01, 7.791903658797870724e-01, 4.245556297255109746e-01, 9.824442916188644848e-01, 3.237790395047804304e-01, 3.835128590828152939e-01, 4.891101403322128949e-01, 8.892858577243439866e-01, 2.541366989823504174e-01, 1.675947027333216932e-01, 6.815368197054180732e-02, 1.481561756682314712e-02, 2.473973790473623924e-01, 4.448012664758344559e-01, 2.515378218591201101e-02, 6.515098153377768542e-01, 7.003707995966784727e-01, 9.844908779586675207e-01, 5.775272516549212476e-01, 8.310915475198198399e-01, 5.447854911226996943e-01, 4.933800599516438568e-01, 4.599626285946432636e-01, 9.634742355232728261e-02, 2.745220517418524020e-01, 7.235254970861618729e-01, 5.871563084169871549e-02, 9.409334696800678577e-01, 4.561489978463711403e-01, 5.695895593593839346e-01, 6.635749381711331107e-01, 8.783149441192257267e-01, 3.267761297579218627e-01, 4.256075723538569888e-01, 5.570901450105888997e-02, 7.863928052694684201e-01, 5.724394274516323433e-01, 5.293175234494165160e-01, 6.570186633298203960e-01, 6.823456108848391377e-02, 9.862164362888797831e-01, 5.492019185391986413e-01, 9.167352771627157448e-01, 4.107932046849230856e-01, 8.714073461580759128e-01, 8.334529385718173478e-01, 9.327431045980114632e-01, 7.675218453140719710e-01, 4.585695959454390569e-01, 9.979383982721266033e-01, 3.111460006685003443e-01, 7.176212241511823464e-01, 2.393428981909871966e-01, 2.573679985144222693e-01, 5.101546153473708323e-01, 1.598694484326364240e-01, 3.867439181869545828e-01, 8.152404077527919402e-01, 9.213462292133194342e-01, 7.882751657249179589e-01, 2.248912819248211070e-01, 2.157396880789476945e-01, 4.423526424586899514e-02, 6.436290255572532093e-01, 5.042422361626348604e-01, 5.774849762011646792e-02, 4.935188172563121922e-01, 6.983859280140524151e-01, 7.378940442976148484e-01, 4.472280165613355396e-01, 3.209677153093855040e-01, 7.234487722732377835e-01, 5.737921298635257905e-01, 1.515075836243974239e-01, 5.782696559406254044e-01, 3.513600372074368594e-01, 8.212011587607384588e-02, 1.500243918867654458e-01, 4.384487634738886697e-01, 4.084924009134998646e-01, 6.492975851401913134e-01, 7.273990727342879437e-01, 1.626018513245415520e-01, 2.751144042859284267e-01, 4.957068366380134455e-02, 7.009236447952106319e-01, 9.287600694455871997e-01, 6.861727447050983697e-01, 9.853938397897256118e-01, 9.779419506869015954e-01, 3.996332861361057143e-01, 2.269279643020521708e-01, 2.054092151512235120e-01, 2.695198736161345532e-01, 3.130861181590075537e-01, 1.714402624410621412e-01, 9.010154165198676068e-01, 6.963946540840005861e-01, 7.103526948700892296e-01, 3.677776311160021461e-01, 7.025371096614457800e-01, 7.457039631327264662e-01, 5.242398442605550324e-01, 1.288151644237048865e-01, 6.592683306236244434e-01, 7.506217929759615437e-01, 4.953939632551267458e-01, 6.308140136960550537e-01, 6.962747053078091053e-01, 7.658397875260788967e-02, 2.639666644276171814e-01, 6.690177423054409767e-01, 6.354687214594647582e-01, 9.699595562964318241e-01, 6.152189668875018141e-02, 8.103564897543127366e-01, 1.755532503775807385e-01, 2.500604755280908531e-01, 1.830483063511334496e-01, 9.769803898132262132e-01, 1.837963385592712717e-01, 5.424528027984930612e-01, 8.109511719394382201e-01, 2.694038184011924297e-01, 9.505653551943329393e-01, 7.560565329068458240e-01, 1.276158771128503844e-01, 8.546276973440688485e-01, 9.182355043497062441e-01, 9.737238745354381830e-01, 3.428835433577988590e-01, 2.484637932842772567e-01, 3.289233693453576524e-01, 3.634535629281373526e-01, 4.421986663118078198e-01, 9.982235089423022734e-01, 4.402311446411367180e-01, 4.346209638239826312e-01, 3.069484187208236237e-01, 9.504539479669976698e-01, 3.715173367330408261e-01, 7.680717969212135232e-01, 5.078010124354208621e-01, 8.981217632530281714e-01, 1.522243518577496291e-01, 7.139010482335617080e-01, 9.731523408143016862e-01, 1.135304773489009406e-01, 6.132863225612212865e-01, 6.404793273339927095e-01, 9.384430803111415420e-01, 2.748067408155716596e-01, 5.374776179842066792e-01, 8.852714199629060365e-01, 1.239651928125486968e-01, 5.482392815359518057e-01, 9.418969484730184138e-01, 6.994795797175630270e-01, 1.766253283236239591e-01, 5.299733512930903112e-01, 1.504306069875379626e-01, 3.796914788727108192e-01, 8.225308159424159216e-02, 8.727936822524707816e-01, 8.514919859626818299e-01, 3.881216355183246813e-01, 5.841266600234497341e-02, 4.611649942824216364e-01, 4.346749740868798839e-01, 7.399614836510477467e-01, 3.738383637388007635e-02, 9.557603972843005113e-01, 5.139712318175903016e-01, 6.215627583673853651e-02, 4.394017222594170935e-02, 4.638375204220513970e-01, 3.925811908198567624e-01, 2.554995032777200303e-01, 2.319118627925005061e-01, 6.871517472910713131e-01, 7.120671860787831653e-01, 3.639222687973194814e-01, 5.871229981657022368e-01, 1.659382720802303757e-01, 3.468001528405255662e-01, 5.902262738037392653e-01, 7.858841929270832249e-01, 4.705027919377302581e-01, 3.174173275980580189e-01, 4.169391890876635864e-01, 9.237360625130266456e-01, 9.270909793209134442e-01, 7.740702600880760009e-01, 5.703330859783197621e-02, 7.193757205778844588e-02, 6.860631567848162193e-01, 1.358655235425467456e-01, 8.995418520726299327e-01, 6.611584316710441556e-01, 9.052667118379656985e-01, 1.843518169112242366e-01, 7.721096879818988290e-01, 6.088296007575383362e-01, 2.931494179038471870e-01, 7.221828824550786674e-01, 5.016389587862383204e-01, 1.654710735058610438e-01, 9.498371058428018987e-01, 3.574117123140363450e-01, 8.011432961806078668e-01, 4.845383081864826913e-01, 4.597852500076203830e-01, 5.858616247564495394e-01, 2.389787750135177469e-01, 2.128431068623280187e-01, 2.885753227645320163e-01, 2.392461271689440838e-01, 9.382922934346563659e-01, 1.399049169130227033e-01, 5.979790734059419188e-01, 4.302256883020519895e-01, 9.568374588734274155e-01, 3.640796438337586816e-01, 9.916860198272573479e-01, 5.086425489548521695e-01, 2.123338013540259084e-01, 9.362371684758478141e-01, 5.578236323078471504e-01, 6.497586875524725691e-01, 1.435742209066180330e-01, 5.977373050931465981e-01, 6.024068668329232157e-01, 3.965668471314022780e-01, 7.658992748633418612e-01, 5.748869106629258541e-01, 9.108140993285063214e-01, 2.927188946179948292e-01, 5.535391870748861132e-02, 9.552943593142642076e-01, 4.949227320376635153e-01, 4.962142478734888340e-01, 6.836708902979390379e-01, 6.361323055442900110e-01, 2.684649980372810774e-01, 2.869736935975584768e-01, 6.593441445831843550e-01, 4.200461435360864915e-01, 4.969729846929002992e-01, 8.916538148511984341e-01, 5.350664364859446520e-01, 8.096509510364270357e-01, 7.643597661843866131e-01, 3.951335375393737470e-01, 4.258565976103934059e-01, 9.028549595108318337e-01, 4.045775601617569994e-01, 2.630142331464124100e-02, 4.520830794507234018e-01, 2.273525568300470423e-01, 6.875621922449313139e-01, 7.937235508542607176e-01, 5.805500079840461014e-01, 2.093687885953875449e-01, 3.578744376275247996e-01, 2.876362811727611324e-01, 1.205601910845251479e-01, 5.374356899280643279e-02, 6.942479308143189032e-01, 2.673469802450663124e-01, 5.439916613339995655e-01, 8.937613648152038515e-01, 3.871081928564733543e-01, 8.211968793961855750e-01, 3.904130372629487367e-01, 9.991358676918751236e-01, 5.082399514954358821e-01, 7.150871343416222992e-01, 9.547585511653063906e-01, 3.579101179892855145e-01, 6.739210220430145171e-01, 3.027642589531931994e-01, 1.415229614546291703e-01, 4.494972345706695904e-01, 7.506214132600108613e-02, 6.551421155466672364e-01, 6.685618086299101037e-01, 5.831665733156294884e-01, 9.042505622848578950e-01, 9.223647183092906765e-01, 1.297975843136844332e-01, 4.343532571992525515e-01, 8.077474485905606905e-01, 6.920120951907235973e-01, 9.783690616271435436e-01, 3.321984891178510479e-01, 2.568155531570798233e-01, 5.651555491759380212e-01, 5.575206761315805171e-01, 7.561213426919607405e-01, 5.350041689552855750e-01, 8.683002187052761833e-01, 9.127954072452655332e-01, 7.356899182543085169e-01, 1.251932582818740813e-01, 9.666772238730432232e-01, 2.373573349691355215e-03, 4.562930484617034876e-01, 5.043848825190742069e-01, 4.324606703298768950e-01, 1.256259001068818215e-01, 6.268659432410517152e-01, 7.066518874663577643e-01, 3.946894553396501082e-01, 6.173072039954365930e-01, 4.307913622504677686e-01, 3.524531901456139926e-01, 7.701290089026240349e-01, 4.928097256009452698e-01, 1.905584113484124764e-01, 6.318702828210831512e-02, 6.918680151050073945e-01, 4.632656272784406726e-01, 1.972015912749213173e-01, 9.768324340221892221e-01, 5.978844691326011818e-01, 2.246989073196739017e-01, 4.055676774998987488e-01, 3.392949422794809822e-01, 7.527309905644670451e-02, 1.164578388970824996e-01, 7.485990220735110334e-01, 1.498466413758509086e-01, 2.719820855603930498e-01, 5.681524291841011376e-02, 7.719984831961034244e-01, 7.526233945116985735e-01, 1.628395844392084291e-01, 3.422817471203488116e-01, 1.597748011384297340e-01, 3.352557217499480685e-02, 1.832177439914413897e-01, 9.831111856481974387e-01, 4.342131626066941807e-02, 4.509929358776850750e-01, 7.614510047280409477e-01, 7.806999126019859014e-02, 5.005317129354984740e-01, 9.528309539447149534e-01, 1.382872447880511592e-02, 7.880472996757234005e-01, 9.782845709190191030e-03, 5.689161703087411079e-03, 1.535458870937756182e-01, 6.546022029449631852e-01, 7.234186436821387067e-01, 1.716985826353532862e-01, 1.498798465913608879e-01, 4.901895999862835862e-01, 3.747519137711683435e-01, 4.201433241519111211e-02, 1.114861948986796136e-01, 4.568964702827620905e-01, 9.383848907602450051e-01, 2.300385871719357045e-01, 9.810136454590008270e-01, 4.408083495308823263e-02, 1.881548833905241913e-01, 7.864746230255240667e-01, 6.402539595248540882e-01, 8.988743615481666893e-01, 4.446006194119838106e-01, 7.845445103757414662e-02, 2.051551104038507739e-02, 7.152887353242156632e-01, 8.340224725589808763e-01, 1.707771092766621202e-01, 4.455324288735733052e-01, 7.420951114430919260e-01, 8.511365289778024534e-01, 1.159834249420083341e-01, 7.116464098501651403e-01, 2.925848563164590299e-01, 1.831327003466723391e-01, 2.520215909011601710e-02, 3.666604444775164451e-01, 6.808814778887490871e-01, 7.718535730362264813e-01, 1.928674449127514290e-01, 7.904162042122062637e-01, 5.658237523671337810e-01, 1.924560646935236097e-01, 4.280344738989567133e-01, 4.733056067262432220e-01, 6.279284714485490193e-01, 1.058187540710338465e-01, 3.303004186244606899e-01, 6.860580933390586500e-01, 8.063537032708251173e-01, 8.632564938930662457e-01, 3.183304406848319057e-01, 9.341817192343537801e-02, 3.287788577855405570e-01, 5.224529032623606017e-01, 6.273770287934964385e-01, 7.360477343439286724e-01, 5.557556562198593397e-01, 7.005791781030211718e-01, 6.691794001512696433e-01, 7.952789246056165551e-01, 4.479238834542826307e-03, 4.016967694113497966e-01, 3.986579545093451582e-01, 9.117038132611550161e-01, 2.268939549845430115e-01, 8.061554679044631300e-01, 2.136170434804073731e-02, 9.911310966572544068e-01, 2.971366124841857137e-01, 8.219664280249243393e-02, 7.585421300790640142e-01, 3.069537653214475248e-01, 6.361039621026809421e-02, 4.136387709644023802e-01, 9.909351058856603611e-01, 8.189688511579018559e-01, 4.368688763405245146e-01, 1.425166121009791009e-01, 2.357143320312854728e-01, 7.837988228301726590e-01, 2.603603769970715964e-01, 5.467185357571531235e-01, 2.458326634174403669e-01, 3.036567947144381829e-01, 3.568268410778385191e-01, 3.600837634058117742e-01, 4.399629064333695494e-01, 7.900271983695495992e-01, 5.700671623933495358e-02, 8.954408681889047816e-01, 5.959122319230903964e-01, 4.400161387656710277e-01, 9.465971601837249727e-01, 9.386051263257630950e-01, 5.232241904039144353e-01, 1.389725437786354101e-01, 1.839233435197133726e-01, 2.981501392086101099e-01, 5.567681548527002589e-01, 2.825825497740441228e-01, 6.326030008817405959e-01, 7.864728937751064297e-01, 4.374701791067863721e-01, 8.840904992029641196e-01, 3.747589801585367031e-01, 5.725881959886599537e-01, 1.968890077220480928e-01, 1.592153488787543258e-01, 5.696466343025847756e-01, 7.901348364857733175e-01, 7.622046953099890221e-01, 7.702461324961311639e-01, 2.484119968307597626e-01, 5.804586095086236019e-01, 7.507868146062822712e-01, 8.915506595595616701e-02, 2.444962475834396298e-01, 7.537792812143239152e-01, 9.540573060146019246e-01, 8.772946407414093928e-01, 2.464615427266201308e-01, 6.438963631678256139e-01, 3.640071988072013376e-01, 1.173295437233958793e-01, 4.786941317113524441e-02, 5.201184492090565881e-01, 4.646210944601031345e-01, 8.137635491404328070e-01, 2.997146848089035642e-01, 2.729988418205523404e-01, 6.272796481540934277e-01, 9.387848715197893990e-01, 7.839282826261508852e-01, 6.505005542853976586e-01, 9.755666420059515564e-01, 3.526259442233584673e-01, 3.998859573689358959e-01, 6.331982530854337599e-01, 2.643313400782605349e-01, 8.909961445241493250e-01, 8.572090826572495992e-01, 9.794085946232790052e-01, 8.906828699775611868e-01, 5.780503026726468985e-01, 1.806587827838929128e-01, 3.254452171126336335e-01, 2.102425395004181574e-02, 4.552728532969861630e-02, 6.771195355609503919e-01, 6.164769430526466643e-01, 9.967612345930287887e-02, 8.646918676754278277e-02, 5.363743884732469214e-01, 5.701665076053771264e-01, 4.632459557200765410e-01, 8.482487203674038412e-01, 3.267504653141377058e-01, 6.760093702921117220e-01, 1.252900946037773522e-01, 2.785822068430763299e-01, 3.548798700960804735e-04, 8.216533056605086482e-01, 1.211323291570937516e-01, 7.829048667614452173e-01, 7.926636819593448902e-01, 1.660939741402815695e-01, 9.791999738157950439e-01, 9.300184728332564488e-01, 6.722158298808038612e-01, 5.564874146060583282e-01, 9.010536229187243729e-01, 3.590878340782672762e-01, 7.767649775423646208e-02, 4.034016729126956857e-01, 6.824460715514192310e-01, 8.172849823321894913e-01, 7.685654017568874785e-01, 2.900864675894651024e-01, 3.320656242595819707e-01, 5.417511023850877239e-01, 4.927089340599562495e-01, 3.427584720518466188e-01, 8.787308344136162130e-01, 6.844985491821614643e-01, 1.989865733013693461e-01, 1.923498637897839147e-01, 5.813372323297646416e-01, 1.439991649923071659e-01, 1.974208304294539362e-01, 2.879721727682311716e-01, 7.332138469709167383e-01, 7.142304333397980765e-01, 2.044309677278909054e-01, 3.387279157158292753e-01, 4.255135143683250742e-01, 7.348643966898379398e-01, 1.725629637959731622e-01, 2.375653133911326265e-01, 1.936590027000618663e-01, 4.448435558516393717e-01, 4.606282113742954931e-01, 3.649012229586336975e-01, 1.964722024971752024e-01, 1.345074644574635325e-01, 1.984870286234621806e-01, 2.672956218104348136e-01, 6.139080807105177229e-01, 4.270359548776968550e-01, 2.075691630468856075e-01, 3.851625420130944666e-01, 8.876114829879143409e-02, 3.601430572492695381e-01, 5.980702241591151491e-01, 1.331873095093187853e-01, 2.555414792189376616e-01, 6.152941799210414064e-01, 2.908982033918766641e-01, 7.340504262898921439e-01, 3.398873953862450170e-01, 2.717354336086348354e-01, 8.120718191037682443e-01, 3.373378823157111017e-02, 9.952406566779396779e-02, 5.174054330969904969e-01, 1.868792437904877313e-01, 7.703907399093711250e-01, 6.693399761759393218e-01, 4.228926589902290978e-01, 5.993603833009797377e-01, 1.724897839279939671e-01, 8.406618199243059975e-01, 3.504287040713737755e-01, 2.918395646890569184e-01, 1.357003315499739904e-01, 4.897933342479947605e-01, 1.325778183750344896e-01, 2.725386195190452332e-01, 6.691966033402538816e-01, 8.496262439732221727e-01, 3.381191274507290845e-01, 9.728946357792052080e-01, 6.722132547808259417e-01, 9.358837456049093895e-01, 5.477398236158413924e-01, 7.880861920044057722e-01, 8.505114199802596975e-01, 4.695154688102333163e-01, 6.225750747808409535e-01, 1.362181464095544615e-02, 5.616192724948775306e-01, 9.186606802725572063e-02, 2.978895929914280316e-01, 6.713984245440346443e-01, 5.200489189318718841e-01, 4.754452079601053510e-02, 8.182754561087850487e-01, 5.940007643095365220e-01, 8.499420876200952657e-01, 6.387033221568357844e-01, 2.424553142874036338e-01, 6.183284317192234703e-01, 9.849811573513458374e-01, 7.560495927887269652e-01, 6.841609083073590947e-02, 2.590671337498335336e-01, 6.145070450553128394e-01, 5.496711647104595144e-01, 9.510011617301709075e-01, 1.177141458725358518e-02, 4.835679700966084571e-01, 4.139463130577162864e-01, 9.813980643960271699e-01, 3.595405708293207825e-01, 2.029202088969976614e-01, 1.952094902517917119e-01, 6.747049290377965525e-01, 6.357501997666212823e-01, 8.005511061456149768e-01, 9.736101481337109398e-01, 2.889218980791758429e-01, 4.259037257513554886e-01, 1.383625431448138599e-01, 5.426346225853838634e-01, 1.466647152273397869e-01, 5.070608989485754503e-02, 4.216533449280425172e-01, 9.853572165662864979e-01, 9.008590158400799908e-01, 1.393783236718469376e-01, 9.780920561502229327e-02, 2.893107646977240988e-01, 2.389680499336205577e-01, 5.912356736491090059e-01, 1.495127702947244286e-01, 9.342774306313516020e-01, 2.839852107432316863e-01, 8.662513017546503713e-01, 7.078085540005362164e-01, 4.705072523881954627e-01, 9.226203390017509998e-01, 7.143200821844982729e-01, 2.895030969483586292e-01, 4.376162247374529857e-01, 5.463551137518636303e-01, 8.262387782130067304e-01, 5.241115150483690588e-01, 1.744954402820539929e-01, 7.154953693260683867e-01, 5.633050839896337481e-01, 7.941515703997870101e-01, 1.147938807890193091e-01, 3.975571855422186870e-03, 7.892672115244565578e-01, 7.055104102798166466e-01, 4.962028675405529277e-01, 8.972489891960069297e-01, 7.079720385648473613e-01, 9.128685844829809160e-01, 9.079953591580660621e-01, 5.767804364449906629e-01, 5.885983165946268025e-01, 3.490554727524731726e-01, 2.367673189358814323e-01, 5.402353469752347870e-01, 1.520880066531152819e-01, 2.081245258559393241e-01, 7.279781388956091392e-01, 6.600800681437360984e-01, 8.968731574882576885e-01, 8.577062814758014131e-01, 6.330327487864777503e-01, 5.704101523305868948e-01, 7.770382322343917236e-01, 7.957445152562914181e-03, 3.070972476212072144e-01, 6.624091812091004172e-02, 4.620898795777962920e-01, 5.263761382101258546e-01, 8.700808222224400146e-02, 4.651560849549420951e-01, 1.630139323231786508e-01, 7.338198727797230481e-01, 8.606206412327457311e-01, 7.302465071596104806e-01, 4.675498027347130825e-01, 5.576923541038948384e-01, 9.569994801368041371e-01, 5.562465421869565718e-01, 9.121618281193741851e-01, 4.652550337205010322e-01, 7.091894335968522700e-01, 1.061835039387665214e-01, 5.913557892955993989e-01, 6.407903711555295034e-01, 2.347652179414763118e-01, 3.291030505279554652e-01, 7.310897934906931406e-01, 6.175783466935881316e-01, 8.221546961594687897e-01, 5.840199221352390113e-01, 2.823460077847955718e-01, 8.032796364856877869e-01, 7.917229656405398996e-01, 6.167165013470221613e-01, 3.713771299995824449e-01, 5.484198398455175649e-02, 4.030189276101654727e-02, 8.148947063097429222e-01, 7.508931254450210702e-01, 1.715611975353520668e-01, 2.722315538423537573e-01, 7.928605857177616345e-01, 4.802177205977710139e-01, 6.886736352199920308e-01, 3.099854513659264232e-01, 8.460850998311516546e-01, 6.566154188553656734e-01, 9.902929181680685256e-01, 8.986637226734409678e-01, 3.859614593407376670e-01, 8.008314746150260177e-01, 1.814968757860988546e-01, 2.143755849071476982e-01, 9.321257182412476805e-01, 2.432005731599999887e-01, 6.996706538064069170e-01, 3.506722200601907202e-01, 9.836321162337484658e-01, 8.158309345626506559e-01, 5.298448672231840240e-01, 9.026176893127924039e-01, 3.505201690075737675e-01, 9.273378218814306573e-01, 1.742403468903960528e-01, 2.413031618175369153e-01, 8.213642524026355529e-01, 8.542022523745395057e-01, 7.296458744646009409e-01, 6.792141215912518293e-01, 1.036327545751398738e-01, 3.176721395223751077e-01, 6.128492026822266459e-01, 8.646100086476068425e-01, 5.489234262676089271e-01, 7.585071759839224770e-01, 9.155520210806281645e-01, 1.132774458521089572e-01, 8.131089811460053829e-01, 7.974019553475274469e-01, 3.319108508075458985e-01, 3.698964352162463221e-01, 6.287307730117515092e-01, 6.116408925620427928e-01, 8.953414597837803246e-01, 3.020445922802199590e-01, 2.802153993751235195e-01, 5.972013256087645994e-01, 2.736230593163528346e-01, 4.554024491472636882e-01, 7.325778848384163489e-01, 6.712030899638922465e-02, 2.784519461137113794e-02, 1.412658663344671384e-01, 6.158465233255016047e-01, 4.097418500025415966e-01, 7.418755053075077877e-01, 3.037182429161537911e-01, 3.653092014308507163e-01, 5.829158607237668877e-01, 3.324125354727436310e-01, 3.390570866577882064e-02, 6.900055883770261911e-01, 3.976155755279646153e-01, 3.635626914532517628e-01, 3.700653461862309923e-01, 9.097642706521618106e-01, 5.659869637341961024e-01, 3.991988077482572228e-01, 6.736189948751237777e-01, 9.162866197863703821e-01, 9.022803269620608413e-01, 7.517737148306946615e-01, 4.150202940489262082e-01, 6.774106471632067583e-01, 7.755439182717932534e-01, 5.478791172014000344e-01, 2.611197250727240737e-01, 8.605852930895278030e-01, 2.663572255650701326e-01, 7.737697690033837894e-01, 5.730925505495422234e-01, 8.810823421489358820e-01, 9.191611750207391296e-01, 9.052501755703495911e-01, 6.148164401926847766e-01, 7.891066048183472681e-01, 6.392976554886926621e-01, 4.177340013043348010e-01, 5.903626289299807040e-01, 1.946052650439579201e-01, 2.668712530076232728e-02, 3.445908805328605218e-01, 9.588709536363294872e-03, 6.855450425854524577e-01, 4.554317225716167372e-01, 4.514193650979003714e-01, 5.076995942072130008e-01, 7.499327975929693801e-01, 5.689466574655307474e-01, 8.635780901006328003e-01, 6.648667591214255657e-01, 3.641884003656703506e-02, 3.474337733384869759e-02, 9.087802946143236360e-01, 2.011047169286279412e-01, 9.667500217645366156e-01, 5.498998411931776964e-01, 7.982355038222770371e-01, 2.516106259784430810e-01, 1.538021592337427412e-01, 9.565776969361130533e-01, 4.959000837962586061e-01, 7.578671049984708752e-01, 8.270036923498590431e-01, 7.319608894955649259e-01, 2.672239113841559099e-01, 9.325557703785126717e-01, 8.285235089736570080e-01, 4.472949953025375791e-01, 1.790834403810368514e-01, 8.103584937593775184e-01, 2.864047472414452677e-01, 6.589644579040571104e-01, 3.477067989159421946e-01, 4.395290509468939844e-01, 7.389974426352494685e-01, 9.670234168650262419e-01, 9.493613660642589158e-01, 5.108572419677639420e-01, 9.097421461080430483e-01, 4.779362699413864934e-01, 4.313476735232310566e-01, 7.177135124794393750e-01, 4.446643652904571087e-01, 6.224079321936409892e-01, 4.623396741124641274e-01, 7.792749328968338052e-01, 8.567426418558352630e-01, 5.158388761516163878e-01, 7.853748997297479439e-01, 9.387952146559556121e-01, 2.625255479142922788e-01, 2.301067062349950731e-01, 9.619108673037595203e-01, 4.154724491872273662e-01, 5.407754886078030010e-01, 6.222897724670972686e-02, 4.294498151316267220e-01, 6.773868280626194061e-01, 8.225045003906004126e-01, 6.791039063237273021e-01, 1.410411966510916049e-01, 3.265494320969186681e-01, 3.655650766339628155e-01, 6.623972342581088690e-02, 4.227856959126296554e-01, 6.598886648679087585e-01, 7.531691702940631616e-01, 6.524939551182873387e-02, 8.049422007052721151e-01, 7.931602702772905245e-01, 2.819619245073450298e-01, 8.447708313333399666e-01, 6.128531387761733118e-01, 4.726822563319919013e-01, 7.781647879042163929e-01, 4.416846826430441686e-01, 1.464330020904013319e-01, 8.786089935123184147e-02, 2.736380389326467100e-01, 7.618036340838284515e-01, 8.455294256464412905e-01, 7.692760978643010672e-01, 4.559816631593657799e-01, 7.801184269507230318e-02, 4.806110299162511673e-02, 4.716867844386012365e-01, 2.686846041442638167e-01, 9.448006452386369103e-02, 2.195940202350717962e-01, 5.710084550324185937e-01, 7.161737790098406942e-01, 8.070174173163775500e-01, 5.468965373489451665e-01, 4.156956191690751590e-01, 8.277572531121248911e-01, 3.225279450775835888e-01, 1.557431014729553365e-01, 7.106015880714915411e-01, 8.819448146610119332e-01, 1.649592783813355057e-01, 2.220373875195282010e-01, 2.080912587197781063e-02, 3.477038361043092163e-01, 5.408756832412980886e-01, 9.787707699756384994e-01, 2.726715431435032255e-01, 9.109307998796742911e-01, 7.787325092202942445e-01, 8.178886148411173007e-01, 4.614854336631238896e-01, 6.275789262374275035e-01, 5.568136291272135496e-01, 1.144568706627439730e-01, 3.646869793275807070e-01, 3.767134759215640116e-01, 2.951589562791314680e-01, 2.588649076811680438e-01, 2.428187550902165259e-01, 5.113042590587066893e-01, 4.925431327939809867e-01, 6.788848684467791994e-01, 9.184214473156057101e-01, 3.869050826914000041e-01, 5.865911881815859541e-01, 4.005311339121528924e-01, 3.488560230554075825e-01, 3.187854921217070925e-01, 1.964654095846321835e-01, 4.537902294198639108e-01, 1.174689584283894472e-01, 8.337581051932029252e-01, 4.192610833558812478e-01, 7.109784900805258268e-01, 8.309363273302183828e-01, 2.962491633899239085e-01, 2.442779455797343402e-01, 8.922075202794389481e-01, 5.102532120474041477e-01, 4.524427718158473555e-01, 6.050790159735908169e-01, 6.820306725082639909e-01, 8.659749171440164206e-01, 5.285210978660956904e-01, 2.211960390127427345e-01, 9.047575858332672638e-01, 7.001555059773767464e-01, 5.468478825021809708e-01, 7.930149962802877095e-01, 9.372435813864190557e-01, 2.215085490970797044e-01, 1.005880914820521665e-01, 6.982537593437091461e-01, 4.656397368730856301e-01, 1.432453417005586371e-01, 7.937247994560705511e-01, 5.030257170779894871e-01, 6.763944171626269375e-01, 9.831017661023399024e-01, 5.036951614607283745e-02, 9.730688739126849285e-01, 2.846469347094436608e-02, 5.761216822273831362e-01, 9.937410436794987811e-01, 1.668443481389471905e-01, 3.912232931803106273e-01, 9.249446029217744947e-01, 2.219956302901699707e-01, 8.072592374263308779e-01, 3.854169928799775491e-01, 1.090530264812178546e-01, 9.216473859760870857e-01, 4.757368730985286204e-02, 4.037806992806226569e-01, 8.294315390547214450e-01, 5.528723358475514660e-01, 3.873256679657040569e-01, 4.996953791522762423e-02, 2.907078165919136925e-01, 3.464104185435989969e-01, 9.063353026918972155e-01, 8.874695019227737958e-02, 9.339426402364058299e-01, 7.934793730697760339e-02, 2.660249715790782288e-01, 8.099565626058520262e-01, 1.722646478552304905e-01, 3.299754382117086604e-01, 5.711916265681176164e-01, 7.815345676068226333e-02, 2.217630361586565568e-01, 3.204021402196509660e-01, 2.244195054753025387e-01, 1.069661560839531844e-01, 5.546041679399802415e-01, 8.450728067793044085e-01, 8.150066492169539822e-01, 1.144876051021895130e-01, 1.622666008828729245e-01, 9.274187922090627589e-01, 5.824954254744798554e-01, 2.693030091403513307e-02, 3.056167658981100432e-01, 4.347143985261612276e-01, 4.561923387630235638e-01, 2.995739864312220169e-01, 2.392866432193554438e-01, 7.094177736177597060e-01, 9.205793774538116869e-01, 3.547106786526919020e-01, 7.663204979423368091e-01, 6.817040541322809677e-01, 3.871298175517957629e-01, 8.120849691230401790e-01, 4.493540159720233601e-02, 7.342240306341974998e-01, 7.050576230579929105e-01, 5.761430746082597532e-01, 5.639047016981940663e-01, 9.273204841798401432e-01, 1.021594895551007909e-01, 1.309235709390771940e-01, 4.007733053198406781e-01, 5.078198971648243409e-01, 4.893146972044167820e-01, 1.946742019348100261e-01, 2.138828740441459930e-01, 6.561072040367281755e-01, 8.542499645830244903e-01, 3.367036837185752307e-01, 8.443119289613408851e-01, 8.631774366299183043e-01, 5.714760472078587172e-01, 7.363646406845724135e-01, 9.707032999992348810e-01, 2.096003173540859077e-01, 1.567759569540652376e-01, 5.671031161033510681e-01, 2.388938060405148001e-01, 7.024952639833239587e-01, 9.931351380753742353e-01, 4.216882447209919782e-01, 3.121443279036743013e-01, 6.120938378272899882e-01, 5.116881424700533421e-01, 7.901275768288036350e-01, 8.996293676393883887e-01, 5.888443953090651828e-01, 6.321873591732103392e-01, 6.491486580471453882e-01, 5.326730785921190980e-01, 1.371475745384274567e-02, 4.031446697406907420e-01, 3.678168638392610434e-01, 7.525294527293777680e-01, 9.470111936135873210e-01, 6.787202843470159230e-01, 6.807162546897080890e-01, 4.884070266298268792e-01, 6.599011446552226490e-01, 2.909556913719106852e-01, 3.548183296291546052e-02, 2.582242014105855521e-01, 7.364967639927638698e-01, 9.026252399198710918e-01, 7.502323002345883118e-01, 6.713527142573920692e-01, 3.307285217203561611e-01, 9.070064093586732712e-01, 4.885146928811496814e-01, 9.962500992117466758e-01, 8.442208935920426649e-01, 6.336447152045301401e-01, 8.016053251024769510e-01, 8.175679921804528405e-01, 8.003426175877098592e-01, 9.517253953913612508e-01, 4.820010548898280289e-01, 7.588536832579594327e-01, 2.519378180372935927e-01, 9.133630302931624589e-01, 7.698200308171109230e-01, 8.086826843370318318e-01, 8.854205735801876642e-01, 2.502022586497580914e-01, 9.752094067745499251e-01, 6.659320650304301203e-02, 4.676628929259995515e-01, 6.630430352162525187e-01, 6.874205959238803842e-01, 8.547076543427534201e-02, 8.480677407122252376e-01, 1.559412474125071724e-01, 5.722684544324568856e-01, 4.980430885422648668e-01, 8.601718313891605627e-02, 6.828360689426391517e-01, 6.639961790218792403e-01, 6.747900671643636272e-02, 3.326621182317955894e-01, 8.867925398340149590e-01, 1.406937053197869214e-01, 4.149487588187831255e-01, 1.895835461070701777e-01, 3.771489429869465670e-01, 1.566394232506982398e-01, 8.544950032551947849e-01, 6.264498073491366892e-01, 2.269557718192083962e-01, 1.876107098190478162e-01, 7.717370102140980181e-01, 7.369355463967788289e-01, 2.189511706943481073e-01, 2.206225072871451087e-02, 2.864663673229244645e-01, 8.644110030591510840e-01, 6.783825456447667435e-01, 5.316188609635145168e-01, 6.167356384709318240e-01, 5.646885544329798279e-01, 6.957960675092238478e-01, 4.641264877037294401e-01, 8.680050527539336924e-01, 5.925720502677849222e-01, 8.609728958957331146e-01, 8.422453208742003428e-01, 5.357050438622100730e-01, 3.365564185142256859e-01, 5.870718554809910561e-01, 6.282422507588739657e-01, 4.383334258476004330e-01, 3.378007813807827331e-01, 3.647760768543775178e-01, 1.627239210155678462e-01, 8.413472693929872070e-01, 1.471287540785178038e-01, 7.233736835763249218e-01, 7.108620859072137810e-01, 5.493546825311361737e-01, 9.994552161498622411e-02, 5.621079423566230915e-01, 3.407163059798570121e-02, 5.183816456341528989e-01, 5.605146124473148195e-01, 9.866126024757654323e-01, 6.582662515992183661e-01, 6.223213518020273005e-01, 8.712987810267333044e-01, 1.656368213578670451e-02, 8.148976919842240152e-01, 3.475033740276063376e-01, 7.400208633319348417e-01, 7.049996441477005549e-01, 9.338918399587329278e-01, 3.605874394985597586e-01, 7.266178156178916244e-04, 2.694961166870254998e-01, 6.561918146597129908e-01, 3.293412044427911356e-01, 4.533450173875367417e-01, 4.725894818875797654e-02, 7.960895464891162288e-01, 6.259543114516905593e-01, 6.628616917490334215e-01, 4.056990225022220065e-01, 2.803448401760788578e-02, 8.279136416841420543e-01, 7.193928754709018047e-01, 7.987749728188076048e-01, 8.409115658056123266e-01, 2.385934879458890545e-01, 3.718749866771910439e-01, 3.753532490276036138e-02, 6.232482557920668853e-01, 1.562933253728773508e-01, 8.601854056185940234e-01, 5.853928036795944673e-02, 6.942663940613857942e-02, 9.694824556591498110e-01, 8.010003205002194093e-01, 6.087364664229746314e-01, 5.152315387169694727e-01, 7.843985876235556320e-01, 8.531992300996771306e-01, 1.229300964665413082e-01, 2.984979899421457139e-01, 6.116432393176385318e-01, 8.546969135049907740e-01, 5.677599467962309854e-01, 1.054783201812775212e-01, 3.613066623985775050e-01, 1.348128550807470571e-01, 2.487226814805034714e-01, 1.757772382201559791e-01, 5.365475408784512595e-02, 6.681929393346056623e-01, 5.908019982672114701e-01, 8.276310372246147365e-03, 1.092260441781743446e-01, 2.992269391231288100e-01, 4.347060013643458953e-01, 3.565224459870180440e-01, 3.685215824050838140e-01, 2.823944683059927407e-01, 7.042656808317158124e-01, 7.172920208283000143e-01, 8.603945131571397731e-01, 1.347492372998258525e-01, 7.724692336042461305e-01, 1.033473063228894651e-01, 3.300422173164116457e-01, 3.730200660983413741e-01, 1.224501659978597251e-01, 3.456621174133486796e-01, 2.690832818242550606e-01, 1.576040565897026680e-01, 5.180132361196076313e-02, 7.122113830378574706e-01, 5.418952864821082252e-03, 3.329098942578977427e-01, 9.951916067853385783e-01, 9.029226386745253796e-01, 5.193711905955837871e-01, 5.426732158099377701e-01, 3.220382103373528593e-01, 4.696096513767682168e-02, 2.391396144785667977e-01, 2.059527428219232181e-01, 5.079888363628436432e-01, 9.934850996098644194e-01, 3.398346699350928701e-01, 4.734333529132173091e-01, 4.330838129783489698e-01, 5.304202589494754205e-01, 4.494534413440629539e-01, 3.987910832824697049e-01, 7.611788060584122606e-01, 6.371608861298125315e-02, 4.353354553786300540e-01, 5.993924283207912040e-01, 5.803390723700420084e-01, 5.916557827434376637e-01, 1.757613153823477381e-01, 5.501455969960555858e-01, 1.326634187824055622e-01, 1.162754136388572668e-01, 7.042477996412982444e-01, 8.804416992441508327e-01, 4.916559779649489204e-01, 5.552618216444243915e-01, 6.287195358740729767e-02, 7.273329508999389903e-01, 9.686403390620998977e-01, 3.939459765950787951e-01, 8.344094970502928810e-01, 4.194945872199364323e-01, 9.444767879814582878e-01, 2.336785435017382229e-01, 1.598887623885181242e-01, 5.906751996115882086e-01, 9.826847978054819022e-01, 4.907157425386882710e-01, 9.271727973163068626e-01, 4.979664230700715788e-02, 7.165520985576567803e-01, 9.391793371834354920e-01, 9.360429033546291411e-01, 9.555690281358265592e-01, 5.706679742566966862e-01, 1.238170424248837692e-01, 4.997914120064372301e-01, 1.162779602567087095e-01, 6.285477373254867439e-01, 4.913886614875768166e-01, 2.193598212936111180e-01, 9.765103878926252312e-01, 2.486740246563199364e-01, 2.296676191973007763e-01, 7.393177830015541518e-01, 9.334593591268970370e-01, 5.423908909470581685e-01, 3.353936883702995364e-01, 5.964180656926150181e-01, 3.704820778732287878e-01, 5.154419417414508181e-02, 4.230801857969209712e-01, 8.076887129563837808e-01, 6.205424192680275564e-01, 5.243826543647563954e-01, 1.207489976636830775e-01, 5.421696139432771178e-01, 9.136929618235660744e-01, 2.271058596914183811e-02, 8.788624823784452200e-01, 4.034074220532413713e-01, 5.851339944086486611e-01, 6.924606448062168296e-01, 6.669704900569101147e-01, 9.907638183310538138e-02, 9.783626821440155608e-02, 8.401413990274536614e-01, 6.057760941200929228e-01, 6.589281973820805272e-01, 8.194208727627766420e-01, 3.059563246834955952e-01, 4.005767397824445131e-01, 1.343969170235970456e-01, 3.355029775307085682e-01, 2.758583707254920192e-01, 7.365386847096762057e-01, 5.832192347124978138e-01, 5.896634703889648277e-01, 7.648558448638467233e-01, 2.187080194663983956e-01, 2.131775269288234131e-01, 5.514009574405644987e-01, 1.295094444746314466e-01, 3.521111646367556247e-01, 2.191968616414849969e-01, 8.302869322377840478e-01, 2.973151661087722331e-01, 3.717325115711327954e-01, 3.372314945875838910e-01, 5.539810930378782361e-01, 5.588923974921146398e-03, 6.382766705947986452e-01, 1.736549656588107782e-01, 6.914100441237492900e-01, 8.573630076262896971e-01, 7.330683471610943691e-02, 8.394876144092782155e-01, 8.349242989473111276e-01, 7.051633280862084074e-01, 3.719697615906140675e-01, 5.735095297545461657e-01, 1.533415651315982453e-01, 5.800664798733566885e-01, 7.889924003806082498e-01, 6.675285893866376163e-01, 2.051216653831262615e-01, 2.941176798573515438e-01, 2.496030188431570263e-01, 1.924591060562352296e-01, 4.838155965118802748e-01, 1.376089763191639948e-01, 7.479428115230691843e-01, 4.689651171464339630e-01, 4.970198638489352616e-01, 1.027000026238435171e-01, 1.195415576419049941e-01, 3.197073917673596832e-01, 1.638408041790232750e-01, 8.236897233692933029e-02, 5.443276223768421795e-01, 4.363058041384078600e-01, 5.919676923429086912e-01, 6.394935524511448088e-01, 1.611012339713711050e-01, 1.431243827164496718e-01, 8.038019540630056969e-01, 5.656216293154533448e-01, 7.327008446609613035e-01, 2.859104422116022226e-01, 6.171538080066034659e-01, 3.164427437794098408e-01, 4.915474851289984293e-01, 4.731969996284731694e-01, 5.338242605772535176e-01, 8.395166169405904322e-01, 3.823762693682424274e-01, 4.344909185929505258e-01, 9.223462478430002331e-01, 1.888053402471019382e-01, 8.397083054945719827e-01, 9.029229203240789481e-01, 3.632753736120157284e-01, 6.589789587852163955e-01, 4.844005090248611478e-01, 5.867559971084810311e-01, 2.971947791405364359e-01, 9.888190330576319687e-01, 5.724214550657156231e-01, 2.232579080578950548e-01, 3.361205072221839507e-01, 9.269363045816593205e-01, 5.343096702969567513e-01, 1.381902361132830714e-01, 4.562498387027928426e-01, 2.235056136861738874e-01, 2.563422176979677225e-01, 5.807003455576491557e-01, 3.847003599799570517e-01, 5.637099332650877814e-01, 5.979928776576317606e-01, 3.743135209469674041e-01, 9.067553330621441754e-01, 4.141900979756318879e-02, 7.489761036628792557e-01, 8.655217942110593476e-02, 1.185963662094733362e-01, 4.865190251768043428e-01, 6.552210332526807457e-02, 3.879148159784626126e-01, 9.590450452798044978e-01, 1.166568439674830343e-02, 9.845041638139211404e-01, 5.461739777995013867e-01, 8.030643404905880578e-01, 2.146120634704016539e-01, 2.285024125944578322e-01, 2.358607158815676508e-01, 6.976529341329200662e-01, 9.732099265247798892e-01, 1.858811173434513908e-01, 5.421469153017431930e-01, 2.902142259606114716e-01, 1.560071710234271769e-01, 7.963471284697641872e-01, 5.393155990506129926e-01, 9.033852013709312567e-01, 7.143055290305612148e-01, 4.695902403790447877e-01, 7.212488753483231596e-01, 1.236529728285944429e-01, 1.119743108453754611e-02, 9.822541971901616042e-01, 4.080472993393781667e-01, 6.822591506171427067e-01, 6.162804080269222995e-01, 4.332299266736162613e-01, 3.413346524993572384e-01, 5.570787332489102184e-01, 9.612423923666540970e-01, 1.450598482121354983e-02, 8.043789476015197337e-01, 6.545903210974964859e-01, 1.449864981948330855e-01, 8.534470536766640691e-01, 8.760774607645720469e-01, 5.450582177431350095e-01, 2.473832340688585096e-01, 3.085544878433191807e-01, 7.387031671118778897e-01, 8.435699894885747563e-01, 6.832336432751391353e-01, 6.406694707224958041e-02, 7.590990810847075831e-01, 8.660816790828368417e-01, 8.258986218061482865e-02, 5.640291577444250803e-01, 8.290315439631700256e-01, 6.711244486813645604e-01, 4.670048888480916038e-01, 2.203735637610589604e-01, 4.594774552425353459e-02, 5.016473512159639325e-01, 6.616426321487166307e-02, 2.350559299975854832e-01, 2.106735231000059771e-01, 6.858945761623957971e-02, 7.196367377457103531e-01, 2.214231617249008410e-01, 5.957222840916224227e-01, 4.808834066190176837e-01, 2.195002525166597773e-01, 5.752001968590507719e-01, 6.123478677376500423e-01, 8.697322224272904245e-01, 5.969058053088427407e-01, 1.068979260478081644e-01, 3.062568608148324989e-01, 6.401942672344309582e-01, 4.984650471929634730e-01, 7.410325567589352846e-02, 3.143009417057331112e-02, 3.515392378521208228e-01, 2.368475170405226760e-01, 4.069030276623802345e-01, 6.017169490624720840e-01, 2.821117754134462308e-01, 8.807499706402807105e-01, 9.189395199338488140e-01, 7.972301135582436915e-01, 6.868719677201395868e-01, 5.248082364002786271e-01, 4.858183485182327455e-01, 2.581502135558787492e-01, 3.469705895513911509e-01, 8.055538184988545458e-01, 4.306544790841607684e-01, 7.884062832253083686e-01, 6.797495595936817736e-01, 6.527245889132308188e-01, 4.406709284920621861e-01, 3.175857830633656564e-01, 7.103705405036440101e-01, 8.649655118073132365e-02, 4.792799258702363369e-02, 1.131955789114886812e-01, 1.255977941075021032e-01, 6.079929469113916074e-01, 6.942626957677966448e-01, 6.656500814482518846e-01, 7.654085747104329984e-01, 7.518771317972884338e-01, 8.344479255100205606e-01, 7.645555422762685405e-01, 7.244431520414337244e-01, 2.717434030673653855e-01, 9.908218362887736275e-01, 1.198874077583038933e-01, 5.654867747706025793e-02, 9.444459640246546384e-01, 6.254395589374773801e-01, 6.388895343747698075e-01, 5.737519562275874563e-01, 2.887463003741834178e-01, 2.203509551461612925e-01, 5.265460184035712921e-01, 5.668937419424779911e-01, 7.989420841289575081e-01, 8.366713672453843231e-02, 2.712947245871000779e-01, 5.992124913245860940e-01, 7.359073126786213059e-01, 1.535275796176060192e-01, 3.553287720478723877e-01, 3.841933522537421819e-01, 3.249630443470594848e-02, 6.647636699289269924e-01, 4.453510491109491931e-01, 6.288377360539636474e-01, 9.282051793447526622e-01, 3.398381353822682027e-01, 5.833428515735367137e-01, 2.808455500115853432e-01, 6.368826867630960065e-01, 5.102499323538595144e-01, 5.212666287849134772e-01, 5.765865961343212831e-01, 4.695804596302369793e-01, 5.704744923595783668e-02, 3.438525975994609074e-01, 7.195731559374285435e-02, 5.340357545834841790e-01, 9.843995426769609480e-01, 2.165497006891875520e-01, 2.111863618634489681e-01, 8.680156294957951379e-01, 6.852760254846015364e-01, 5.324900751119466813e-01, 9.122917649143915675e-01, 1.330633284021171259e-01, 6.252231849705568445e-01, 9.010497460942786807e-01, 3.416033853681166299e-01, 7.269587368375954872e-01, 1.990534300790769429e-02, 4.691828833003610089e-01, 5.818162837331698756e-02, 5.481355555902368143e-02, 9.126608749905246176e-01, 5.256493973127637775e-02, 5.793602247650361248e-01, 4.098636152116997833e-01, 2.457202340906914362e-01, 9.762926860140763718e-01, 8.496672869801420447e-01, 4.351307725206692845e-01, 1.252762612523437014e-01, 2.662589688316732150e-01, 4.033340603016536963e-01, 2.699546852883558112e-01, 5.736006031659598436e-01, 3.384054595676160848e-01, 2.890414191274874867e-01, 2.872486177292073450e-01, 9.112793896629215462e-01, 4.576995865931862695e-01, 4.707664656996956021e-01, 2.154721506797903641e-01, 6.796263654627898720e-01, 9.020502653246931235e-01, 5.624395578594898470e-01, 3.361744464525026066e-01, 1.260292524240923251e-01, 8.138658855009056614e-01, 5.835885228211814546e-01, 1.850081477694275889e-01, 6.359690094537934213e-02, 8.562059374111751220e-01, 5.889165504148750896e-02, 8.604680979974752564e-01, 3.818314554052764098e-01, 9.046101790635342477e-01, 8.566047714654779766e-01, 2.007913311412527491e-01, 5.704398640063572667e-01, 3.553671381822117725e-01, 8.133445102757442813e-01, 5.988098026972809018e-01, 5.199722681082399323e-01, 8.360793687078967862e-01, 8.561962648544828580e-01, 9.892409482180777314e-01, 4.227089348672798952e-01, 9.274514579271998516e-01, 2.370674254843178064e-01, 4.709581918397332534e-01, 9.718685922531478116e-01, 2.698818398815981401e-01, 5.846047809786897309e-01, 7.975061512501426808e-01, 1.373150354737522894e-01, 5.154509855731659318e-01, 5.369111763054434938e-03, 2.506326410552905948e-01, 3.556944466691942530e-01, 5.126907949527349517e-01, 9.960234001196454079e-01, 1.120386036530326840e-01, 1.901239882499559108e-01, 6.376570987249859934e-01, 2.087931106693714511e-01, 4.091140684275281769e-01, 7.526284008663175484e-05, 9.321133790096796101e-01, 8.619904609423618691e-01, 9.658364566586299382e-01, 6.172590257266021840e-01, 5.781239977325806079e-01, 1.066735122270802139e-01, 6.208371025002775712e-01, 9.201564433785635044e-01, 5.737819119481921137e-02, 6.505005904747285239e-01, 9.383964829465816226e-01, 4.223977607428504033e-01, 3.112370885412357735e-01, 2.084553283841100169e-01, 5.990989844846318357e-01, 7.177478757010007371e-01, 3.608113204031171417e-01, 1.209270485771514192e-01, 7.195134018802201714e-01, 3.413357866821540298e-01, 7.595383256444150355e-01, 6.164303223364857587e-01, 1.336142031502063690e-02, 8.007641071330318105e-01, 3.936644089686485160e-01, 4.366577644009238951e-02, 3.302786227639881722e-01, 5.491822527162663059e-01, 1.677096152923250871e-01, 6.701121023175232727e-01, 6.144785409527492304e-01, 9.853249187004943233e-01, 8.090495039009480971e-01, 5.062087044337862940e-01, 5.708105755720005448e-02, 2.964129257374896742e-01, 6.013972257548542283e-02, 7.146610251848156681e-01, 7.774558638726731807e-01, 9.521923532074199059e-01, 6.219591289786808863e-01, 2.131727823528956067e-01, 7.599069082978896494e-01, 5.055548631597482911e-01, 2.055104956795265336e-01, 1.528526268873409422e-01, 8.605502906326842893e-01, 2.103632925710570145e-01, 1.304177336835506129e-01, 9.502040061187896902e-02, 4.401085339544363317e-01, 3.401843993351832962e-01, 7.132349483346535068e-01, 1.676054805587920971e-01, 4.377611000472363401e-01, 1.088365308986562197e-01, 1.782914279617650866e-01, 7.466578235104566197e-01, 3.266951908349421951e-01, 1.142493565464459404e-01, 8.078713646783516333e-01, 9.028324304454875548e-01, 6.498813652866402002e-01, 8.696727657096815500e-01, 8.355370658601532496e-02, 7.694420823243245389e-01, 9.951999993408991996e-01, 2.969039609887274000e-01, 5.504856180019077616e-01, 3.494050139441461367e-01, 1.177189758169583378e-01, 4.771799902877399413e-01, 1.842174063382480131e-01, 1.432683142987950797e-01, 1.212081606064071004e-01, 5.163195872059131997e-01, 5.989522913217804057e-01, 9.563471147647798487e-01, 7.382160648436654204e-01, 2.964729760652944357e-01, 9.401512054284940634e-01, 5.210073251771977221e-01, 6.765058068532414648e-01, 8.679071845501531435e-01, 2.495307526354570149e-01, 5.669566792791805865e-01, 3.055374841887287807e-01, 2.497448718319255911e-01, 5.684885363113458684e-02, 8.260393254586321232e-01, 1.380944467307934076e-01, 3.884550290793250538e-01, 6.922514714424786719e-01, 7.601592029007514517e-01, 6.077999285152412279e-01, 7.706701500347866718e-01, 3.385221158257916696e-01, 9.321804780375217980e-01, 9.448849180650183976e-01, 8.529138203684829556e-01, 5.157218627790574050e-01, 8.026086394022601267e-01, 2.418704818769028542e-01, 3.727000144111461966e-01, 6.693574636153680757e-01, 3.474576523788991955e-01, 4.053371412370608828e-01, 7.512060017693128477e-01, 4.714753253691801316e-01, 6.085283566911667830e-01, 2.682121436787275881e-01, 2.105110083170767532e-01, 8.298635056489368500e-01, 6.257272720200741933e-02, 3.629500537154539686e-01, 8.037510988552285518e-01, 4.120592108120615937e-01, 1.956583798217808867e-01, 1.522589720329534102e-01, 8.127094357978715822e-01, 6.937052468150467499e-01, 3.496526316086440156e-01, 8.134397788028565612e-01, 3.176452108772234717e-01, 4.289047607788349925e-01, 2.884928561827350135e-01, 4.236190547489845915e-01, 7.680048959442851153e-01, 5.635487714992569730e-01, 2.167950020924493959e-01, 9.645805931598396832e-01, 1.557587561636754048e-01, 2.537011738882174461e-01, 2.931367437675092003e-01, 5.514970138283089574e-01, 4.794204509979913542e-01, 7.437093753175919586e-01, 3.244274050201107484e-01, 1.576432223277505484e-01, 4.993979213342415457e-01, 8.100601358582628642e-01, 9.736512167783545335e-01, 4.157278714154353239e-01, 7.126051667755761709e-01, 3.153329887712905677e-01, 7.133062759467785618e-02, 3.942865903534856775e-01, 3.455053660580699182e-01, 3.387207262719782452e-02, 4.530829199026845666e-01, 5.789257484259789921e-01, 4.950055248825963039e-01, 3.723734462107327614e-01, 7.422476733324271381e-01, 3.261413156225563270e-01, 4.799897948328653019e-01, 2.581661512976086703e-01, 3.300542839836284048e-01, 3.839790207765277352e-01, 9.354111176770609770e-01, 8.918729663400112306e-01, 3.519911892466071057e-01, 1.331990565134320570e-01, 1.114150804903729780e-01, 5.193833330188102337e-01, 6.972961278784139960e-01, 1.871194726228846139e-01, 4.725303389061893955e-01, 9.123751076854273723e-02, 9.278027151078189760e-01, 8.993863906129050401e-01, 6.281454492251936812e-03, 1.419912306143639169e-01, 3.092225778160487826e-01, 2.592284137096582675e-01, 5.172272497093057808e-01, 6.206966726555993574e-01, 5.762442759387530478e-01, 6.582570322500330695e-01, 9.397241185349769488e-01, 4.450499735358867115e-01, 8.088783987553253008e-01, 3.619901161225556052e-01, 8.470955639448440877e-03, 5.349845422455395960e-01, 9.738882155981484212e-01, 1.346959415172936832e-02, 1.092290840948458852e-01, 5.896413292517164173e-01, 5.287102081516832364e-01, 5.447039446424741804e-01, 1.682795649619864831e-01, 3.808906149617685144e-01, 2.474934260795370600e-01, 8.842759380901444866e-01, 2.490209815302403262e-01, 8.370771040271974828e-01, 7.931286581099588062e-01, 7.280650402118542530e-01, 9.250845212538082452e-01, 1.759073999997140536e-01, 4.503104175527247732e-01, 9.850330887003501124e-01, 4.872811310427073161e-01, 3.575599215161991973e-01, 1.700257176844639506e-01, 7.313422816913259239e-02, 9.661522470564937182e-02, 1.752320779839749154e-01, 6.546074848220282405e-01, 4.756128465475004119e-02, 2.558640063853847568e-01, 1.341768610546565377e-01, 1.670319165452690546e-01, 2.948601972019237460e-01, 6.709879172040089657e-01, 2.718769712568470109e-01, 8.417086356336996866e-01, 3.042063032295795888e-01, 2.091028309116167716e-01, 5.671356925426110918e-01, 6.921126626620698330e-01, 8.660957454759040663e-01, 1.193206444472861560e-01, 1.061304539823798715e-01, 7.168513509497533021e-02, 8.865987661577602319e-01, 7.455661839943583669e-01, 4.705254208595057719e-01, 3.944045069273864335e-01, 4.097859205028542284e-01, 7.856021996068057733e-01, 7.140387344950472892e-01, 6.091639543513494015e-01, 5.738138908175679509e-01, 5.023576231576412088e-01, 6.794843775221706683e-02, 7.114329767719451691e-02, 9.642432904402729044e-01, 2.674038020541607552e-01, 5.151030938928579106e-01, 6.709486388830088188e-02, 8.911378647563802935e-02, 3.960329346149785712e-01, 2.336509055845642502e-01, 8.489702911342250635e-02, 8.956426316436513213e-01, 5.037435019129509195e-01, 3.478569431158337055e-01, 1.053256457598421569e-01, 4.462436504204517762e-01, 3.237224495713856842e-01, 6.834294368272412212e-01, 4.808595593267832036e-01, 8.433179307309107697e-01, 5.873818416471701109e-01, 2.733343179857974370e-01, 8.794682180861188581e-01, 9.879718210534865763e-02, 2.243422681710675048e-01, 7.040369737391842797e-01, 2.569983081300112882e-01, 8.659693379323117890e-01, 2.219161430613832975e-01, 8.326999625049721354e-01, 9.186518570718256171e-01, 8.845600900239170006e-01, 1.254597008309655259e-01, 1.477740029536637190e-01, 3.762256685896112063e-02, 8.067194077698992827e-02, 8.813102144957724038e-02, 7.209216210635037703e-01, 4.582722512604955195e-02, 6.684760931920967764e-01, 4.228978249225237573e-01, 2.477028798021077005e-01, 6.797887340474743079e-01, 3.274825091318208509e-02, 5.250231299727400325e-01, 8.634058948361817976e-01, 4.195586182977830564e-02, 4.228387628342719085e-01, 6.785999776920087490e-01, 8.440782743587709192e-01, 3.722772404313144934e-01, 1.619972586035105591e-02, 5.721299817232292639e-01, 3.883191075093693767e-01, 8.640236725642734816e-01, 5.635444649194175648e-01, 3.651472964146205702e-01, 9.183106979087181099e-01, 5.775738382150035211e-01, 9.273694770907893181e-01, 2.515358355020607672e-01, 2.658755329408578338e-02, 8.752051637839540765e-01, 6.956984474865068879e-01, 3.010050524169849417e-01, 5.549679187772640354e-01, 5.458006991321195933e-01, 3.974815868856118595e-01, 8.215443631827092918e-01, 4.048752677503796304e-01, 5.931252561210227370e-01, 5.472053065304112174e-01, 3.070146351116789796e-01, 8.455542979279122573e-01, 7.991542388604121472e-01, 2.502806902081964879e-01, 7.761597235606854106e-01, 5.099459604901537824e-02, 5.338279960899710019e-01, 1.553407806644756806e-01, 3.255319393633306357e-01, 8.918093074058310865e-01, 6.608020606864831725e-01, 6.613112660996446346e-01, 2.107619465713157503e-01, 3.491138977149597089e-01, 1.856500529106125119e-01, 4.008964808466055629e-01, 9.641540411247685738e-02, 2.499507099046719139e-01, 1.908285637909501176e-01, 3.557132726230803343e-01, 8.228350816937320955e-01, 5.077848576415707749e-01, 3.314891422888266992e-01, 6.317974780002837409e-01, 8.018881144316191145e-01, 2.612011834974181310e-02, 7.612992261968677399e-01, 9.334174937795794991e-01, 3.561248804609151164e-01, 9.867132940584434353e-01, 8.706315798656120153e-01, 1.336662730589147363e-01, 2.296611540837009136e-01, 7.985994387529904426e-01, 3.860812140107167667e-01, 7.306483817907577505e-01, 3.464338885483972952e-01, 1.608224867456723162e-01, 9.870009394850784989e-01, 9.065230909393336978e-01, 1.507963888465460034e-01, 8.361521521554687864e-02, 8.517814928999329904e-01, 1.540176426023737721e-01, 1.294214353157601416e-01, 6.132671437275368787e-01, 9.799352455805563356e-01, 3.816733734374079812e-01, 4.430561268587323576e-01, 6.591514358563511644e-01, 2.100965801322473014e-01, 6.469645767213869636e-01, 2.754741513695724286e-01, 7.757379100923356141e-01, 2.211490624701978602e-01, 3.991891653889881320e-01, 7.115840479647768391e-02, 5.104028485421666650e-01, 8.234090557149883471e-01, 8.595283892774536749e-01, 5.917456570296566465e-01, 1.620023819143643906e-01, 5.935990144317933037e-01, 8.176878268407126171e-01, 4.107262899887546143e-02, 2.023177552181419370e-01, 7.728640640870532152e-02, 4.746840470946164792e-01, 1.403459622459463929e-01, 5.269795084537439722e-01, 7.418678498657445275e-02, 9.722724513372716926e-01, 9.664866805324171528e-01, 6.387855467632391759e-01, 5.366833136790385428e-01, 9.906966862931854134e-02, 5.121501047413756780e-01, 4.247049666498924902e-01, 2.586761063818054929e-01, 3.846048367509302679e-01, 1.139565117121797699e-01, 8.267007551726875958e-01, 2.647821003503832982e-01, 7.735113701318385715e-02, 1.488788525725784906e-01, 3.294712666917744281e-02, 2.863804429682525465e-01, 1.376891806408259145e-01, 6.087124273243794681e-01, 6.952676059363173122e-01, 9.285559802130817220e-01, 4.909535347139918349e-01, 3.903971635759058700e-01, 3.924025034490754571e-01, 7.351898630799370560e-01, 6.054303401834194576e-01, 1.090785615113904206e-01, 3.845997110757142911e-03, 8.212567665776459025e-01, 2.485997755554766042e-01, 7.704164077182971138e-01, 3.161615660376426717e-04, 4.280804924235346309e-01, 9.703135594668020891e-01, 4.877171643604822915e-01, 2.393202763036432756e-01, 8.972609447114743286e-01, 5.653926147963178606e-01, 6.741618839551906106e-01, 4.132115881967786120e-01, 9.439618276268075814e-01, 8.079131139633257686e-01, 8.778982888465760581e-01, 5.391129067166948730e-01, 6.329402626215515637e-01, 2.226031474760293838e-01, 8.991214794098626450e-01, 4.716408361688389506e-01, 3.619868576412271777e-01, 4.493710720195216030e-02, 8.115844994610007523e-01, 5.432503199264515636e-01, 1.995739753469524813e-01, 5.173200358209535388e-01, 9.158511936221388483e-01, 5.040356498351704628e-01, 6.676581886157022527e-01, 8.299017958624084201e-01, 9.999421396986383215e-01, 3.227764679193328989e-01, 8.641931872622715671e-01, 7.031918981840111771e-01, 5.410183577322369430e-02, 4.804075222832697722e-01, 2.124754532891622028e-02, 1.013478818082625965e-01, 5.706983722910576873e-01, 5.807479073324138819e-01, 3.767700872518168209e-01, 9.669839952209529077e-01, 4.048777823200196413e-01, 1.454897620606784292e-01, 2.632851275675892055e-01, 8.578230705210796447e-01, 1.741510543852321791e-01, 9.894691726407432997e-01, 2.379025935547493878e-02, 2.237107437496828610e-01, 9.649668491682804605e-01, 7.005100893828061226e-01, 2.471767846211634367e-01, 8.283637993811614475e-01, 5.398957127551885504e-01, 7.600409211709714397e-01, 2.385399200930904962e-01, 9.201782978198441709e-01, 1.364155767520840445e-01, 8.080833922998109653e-02, 6.868217010966434222e-01, 2.928822533694158681e-01, 5.531194230731554251e-01, 2.661419481666900122e-01, 6.520944393844122500e-01, 2.759852234837043561e-01, 6.324152989785951640e-01, 6.739277863979837857e-01, 8.940158677588243563e-01, 3.851904543217206101e-01, 4.533876932109739410e-01, 9.777732791185188566e-01, 8.285477026094582031e-01, 7.186813065681338930e-01, 1.294419154626914592e-01, 7.983799100537346538e-01, 1.088099927927262955e-01, 4.716042796382025615e-01, 7.575279053938841489e-01, 9.309082963768011698e-02, 8.519017683584350076e-01, 1.061635763233225171e-01, 1.571686370870653826e-01, 1.442861318915406310e-01, 2.414165520415489929e-01, 4.525643260868298379e-01, 9.078102269553272041e-01, 3.715136977041566535e-01, 7.813720726251649484e-02, 7.822541747077508267e-01, 8.079182542771466968e-01, 2.375684185091035683e-01, 8.939306464281876474e-01, 2.124980572806908496e-01, 2.745059504898618163e-01, 3.450475462085645373e-01, 2.910631064133688550e-01, 8.642368514447485994e-01, 1.335526393098634412e-01, 3.515672699597344186e-01, 4.847507251479113433e-01, 5.622935290599847535e-01, 6.393233703308691673e-01, 3.029562727185251547e-01, 1.837397443501509742e-01, 8.402946119190720653e-01, 7.249756109719482922e-01, 7.678331454684275137e-01, 8.413211567286010828e-01, 8.104331954766201829e-01, 5.675507822482240838e-01, 4.961563259316215113e-02, 8.792333870757663705e-01, 8.962036357715755797e-01, 8.198447482896291660e-01, 9.888723461237054480e-01, 2.108608628624237813e-01, 3.166898306150001119e-01, 7.490458842734744049e-01, 7.503623220007548111e-01, 5.195551930605832869e-01, 8.170057707325688312e-02, 2.500117443699160780e-01, 3.533997870411391129e-01, 4.764645364715389686e-01, 1.302003769193474658e-01, 4.987939200138347129e-01, 1.598794834364769546e-02, 1.859508137478532996e-01, 8.071067910897694597e-01, 8.337474710889245522e-01, 9.678113611376262249e-01, 4.699961613316223641e-01, 1.291246612891936429e-01, 7.114455835672580664e-01, 6.135916234850042894e-01, 4.552737485693601482e-01, 6.085877091843480136e-01, 3.601849352217731948e-01, 7.007144021048118399e-01, 6.199343790706498547e-01, 5.979510333205741990e-01, 8.056173510756595713e-01, 3.943722762887725830e-01, 8.557533965406157739e-01, 7.078923719756085031e-01, 7.166578698129234537e-01, 7.155474267455025350e-01, 3.326211345627630434e-01, 7.239943721132633403e-01, 4.177054804829641310e-01, 5.028610214409928725e-01, 1.404743975768884580e-02, 4.408437159899342705e-01, 2.871471110174759200e-01, 1.053187042318572547e-01, 2.088546638508848863e-01, 4.945818586614929638e-03, 8.516442241538633162e-01, 2.207001688186980282e-01, 8.842733875105721619e-01, 6.733895579655295727e-01, 4.156278991266666445e-01, 9.651314488733985231e-01, 4.933063530534670948e-01, 7.631765075888179428e-01, 3.032226467176198370e-01, 7.897275568694946957e-01, 9.129766439029999292e-01, 9.123558174151445987e-01, 9.360259765648346608e-01, 7.529998026694864066e-01, 3.804177558987023033e-01, 6.480666712619882475e-01, 6.753279198861454891e-01, 2.481143754226202702e-01, 3.290512667455842144e-01, 4.746192949656676818e-01, 5.881292084716021051e-01, 3.808049685096309145e-01, 6.883424896969186912e-01, 4.950856122290029360e-01, 3.115556996206367835e-01, 8.117734331018664484e-01, 8.789091140755259657e-01, 7.468340216043559132e-02, 8.333793774084270467e-01, 2.339356993838194176e-01, 4.019602839780093140e-01, 8.653069906652829379e-01, 3.856956811548032937e-01, 9.079764664981200273e-01, 7.351809952718839358e-02, 1.003753722929793257e-01, 4.031133712828779414e-01, 7.660735732909749185e-01, 5.966174259530758750e-01, 9.702681249865815483e-01, 3.246805787291626721e-01, 6.945614847467809216e-01, 7.672199457539586875e-01, 9.673260031094499736e-03, 8.884500470870386746e-01, 5.614687901203272435e-01, 2.135799171419727194e-01, 7.636490257094795675e-01, 4.232588497150935880e-01, 9.702544485367661231e-01, 1.520501993051627254e-01, 7.055102497620264757e-01, 2.526092452974565417e-01, 9.242411284739788790e-01, 7.835434482697735126e-01, 1.592281851549202099e-01, 7.474520634237468153e-01, 8.395375980757637802e-01, 2.101001369537026237e-02, 7.768643188959656332e-01, 9.145193299892918626e-01, 8.462845546602997260e-01, 7.622657621606478973e-01, 8.170052128603061403e-01, 5.372213158570802172e-01, 9.908586901325227014e-01, 5.948071420765925765e-01, 1.612236041886433782e-02, 6.618858284903006428e-01, 5.766469413695838320e-01, 4.574022265105269214e-01, 3.846790035215836290e-01, 8.297412381439062123e-02, 7.077889707677033071e-01, 4.709311446779578803e-01, 7.316088371967787163e-01, 7.124655069613966552e-01, 1.013903172599519564e-01, 4.124832976185297678e-02, 8.860419150025163892e-01, 6.170955903435903361e-02, 7.347213920343823590e-01, 2.848373473273028700e-01, 3.080145544447408512e-01, 8.862429357700388755e-01, 4.357229357299034489e-01, 3.854621646051644562e-02, 7.398340312694545728e-01, 3.533750304369101536e-01, 6.985460698326814155e-01, 9.437025100403632072e-01, 9.550657119208086909e-01, 2.170204694982285354e-01, 6.872362201058133113e-01, 1.389049954640250439e-01, 2.142955708336916898e-01, 1.838959140132324921e-01, 1.497747280542967574e-01, 2.638893656154782212e-03, 9.004382168508124895e-01, 6.537977174493961874e-01, 5.521625882840454080e-01, 3.721413662402330846e-01, 4.140852661969842141e-01, 8.644304514331198064e-01, 1.846828607464820471e-01, 3.135774517751608453e-02, 1.427944280290238677e-01, 7.010494823716610924e-01, 8.278001841210288481e-01, 2.529561783404789266e-02, 3.744918488228532460e-02, 8.402999069002132781e-01, 7.262716199056317157e-01, 8.865451881855823668e-02, 1.353159373956773492e-01, 5.105798594679578084e-03, 4.464149928424107072e-01, 7.219542705812422856e-01, 7.378104506685899677e-01, 7.222667070958106450e-01, 4.659654884989833379e-01, 2.092302984150901657e-01, 8.255212806664909975e-01, 4.952939484524205849e-01, 6.043900742977110774e-01, 9.211243487146297815e-01, 2.965388295064802504e-01, 8.159414428889518733e-01, 2.026234484820438053e-01, 3.337392710768709581e-01, 4.220885225297260068e-01, 1.488161443678488738e-02, 4.906030639962415396e-01, 6.579830702260892616e-01, 8.912426779824443868e-01, 4.901154250206407603e-02, 9.291462738405719124e-01, 4.762753663146668259e-01, 1.530443428435527276e-01, 9.017727146809946526e-02, 2.532591740510000689e-01, 2.232962929094349791e-01, 1.718127515049350795e-01, 5.938495677348837321e-01, 5.086194589536383592e-01, 3.826851285603736219e-01, 9.439684625497802850e-01, 4.776793527557074426e-02, 1.390510107247059368e-01, 1.183850370108489730e-01, 3.755727710354076487e-01, 8.903700193771664217e-01, 2.551420475166992219e-01, 3.299668844521115862e-01, 2.574973516197102130e-01, 9.099833283627183356e-01, 5.408228781677991703e-01, 2.096509886238997426e-03, 5.337788182767113643e-01, 8.699568638587515945e-01, 9.251067840626898686e-01, 9.029063233167351488e-01, 1.869421586353647510e-02, 6.433004110343905069e-01, 7.661175392663156780e-02, 9.759466102104865648e-01, 4.817531275894797460e-01, 6.024413521274456507e-01, 9.708163519327198676e-01, 5.882917039993029729e-01, 4.079416975569266079e-01, 4.027746852919409509e-02, 4.065071730462547217e-01, 6.497351075177877355e-01, 9.913386555313271620e-01, 6.541344352096786219e-01, 9.609923182605366598e-01, 7.664167524015756960e-01, 5.569495828326624931e-01, 6.390827349879774077e-01, 5.376696406677502482e-01, 1.056605661682251396e-01, 6.242541775192863573e-01, 1.436075912926759734e-02, 3.930984703578448841e-02, 9.878069829913719291e-01, 5.005756796490861138e-01, 9.995364870996085386e-05, 9.689794830820445126e-01, 6.114355424376048953e-01, 3.095201716747994491e-01, 8.696598714718299927e-01, 3.814084553292156343e-01, 9.135909444029213233e-01, 2.028977234488430204e-01, 8.828366494519087615e-01, 2.124026880907067261e-01, 5.399912343555890448e-01, 9.803525218054909285e-01, 5.919056504192818924e-01, 5.593111410760223112e-01, 7.659831161230704621e-01, 8.469795631158135718e-01, 1.300907643503599609e-01, 7.498772439486514063e-01, 4.383269779307557568e-01, 5.198632002697086696e-01, 9.096713541826679794e-01, 4.110377672134098437e-01, 1.026662351710238008e-01, 1.640789739346537601e-02, 6.970900892706000107e-01, 2.802868954497895748e-01, 1.357993938892236296e-01, 4.263477321862465530e-01, 6.914916180272880908e-01, 7.405277099639676619e-01, 3.280160016391461819e-01, 8.599243649613730334e-01, 1.082223170652139022e-01, 7.725048575538848716e-01, 3.741632290961424134e-01, 5.574381345550649680e-01, 3.127133898556831437e-01, 8.013819520068591329e-01, 5.276702772062357161e-01, 1.201473445408991342e-01, 9.341642734202342258e-01, 4.070382992434495167e-02, 3.289023960660911183e-01, 7.780380692685799904e-01, 9.530093945743778328e-01, 5.521258765484158282e-01, 9.598256364270825181e-01, 9.226931277969406819e-01, 4.713435020278612941e-01, 1.598637077129760331e-01, 5.153508366117134365e-01, 9.786045688278478538e-01, 7.395662125898929684e-01, 6.869300473125898865e-01, 5.922236346773548238e-02, 3.080338032208225149e-02, 6.564620088674927301e-01, 8.801315704332637324e-01, 9.608484363556032415e-01, 4.219510310866986247e-01, 5.099590681230877776e-01, 8.403994209219491918e-01, 5.521207639740196571e-01, 8.946647909058939030e-01, 7.812501099574636898e-01, 9.372826679980761355e-01, 5.004091303693014581e-01, 9.467362755591676171e-01, 1.669692024770747241e-01, 2.098328506407803051e-01, 3.243254995986776801e-01, 7.899127996315725708e-01, 4.363806357840850358e-01, 6.947549121481984002e-01, 4.762129759777170013e-01, 7.663284987839124041e-01, 1.883832818566447409e-01, 1.495265927074194805e-02, 3.989857046901315041e-01, 5.806749130739464748e-01, 2.088378890175015823e-01, 4.953283065290684517e-01, 1.569418029881163301e-01, 7.716381990072413988e-01, 7.800630591663069158e-01, 1.978978418339913392e-02, 6.282232377512706467e-01, 4.444256956956755822e-01, 2.422390083193499688e-01, 8.746922103999756892e-01, 7.076064854373275148e-01, 3.105868299474434102e-01, 9.988885586049064402e-01, 4.097426085935317874e-01, 9.526625949609336674e-02, 1.811510076323759877e-01, 1.993780191813121841e-02, 8.758170517857741810e-01, 8.332480914875723954e-01, 9.559988515741236759e-01, 5.895838321923099201e-01, 5.959946957119335309e-01, 7.354937887891170589e-02, 1.754335245832611134e-01, 6.901483542533562998e-01, 6.320199247857472002e-01, 2.225254672333253081e-01, 5.474344512432163246e-01, 2.523091902969242240e-01, 4.075458205714799220e-02, 1.306246287787052596e-01, 3.829299845404121050e-01, 2.934905642966326167e-01, 8.517557543328596603e-01, 7.142935802269921863e-01, 4.864964348959226470e-01, 5.526363644710938217e-02, 2.438074192447897970e-01, 8.947279446350895338e-01, 4.104473891357802717e-01, 3.670443834761993873e-01, 9.236533860444705590e-01, 4.771284448262760325e-01, 6.037320073355871841e-01, 7.826846130642653998e-01, 3.902955114118648039e-01, 1.020678319168183412e-01, 2.070080628440835180e-01, 6.935677000748169396e-01, 2.748368402098143037e-01, 5.788921387989393041e-01, 3.284526734769199208e-01, 2.298290731569849477e-01, 1.476683572673837819e-01, 3.691574531682188520e-01, 4.944043884685465073e-01, 3.245351480607129302e-01, 7.588756331540218447e-01, 6.422594213721133372e-02, 9.255699642118169201e-01, 6.468046334811290432e-01, 7.942274322955385213e-02, 1.288879996458212884e-01, 5.160098192346838086e-01, 5.306475410521168667e-01, 8.062519462103505674e-01, 4.438622469789451630e-01, 5.316382599457059044e-01, 9.964509690953470278e-01, 7.558583195485106820e-01, 7.929925612535172474e-01, 3.153625769919409239e-01, 7.420865182841404062e-01, 4.000604635735467429e-01, 7.168592725488103223e-01, 8.238483317181993781e-02, 3.883096574777851195e-01, 7.819767898091178893e-01, 5.795100685224506831e-01, 3.176206590703056776e-03, 2.392295414068053294e-01, 6.321525425519006758e-01, 3.343973034919348053e-01, 1.022606667450785267e-01, 9.570832713052945806e-01, 5.814159112427329766e-03, 9.351587750741676697e-01, 1.617538562213230724e-01, 9.353391595510707202e-02, 8.967633904743645135e-02, 7.684767899685616133e-01, 9.889497208617459290e-01, 7.886946936286226562e-01, 2.947675666058734434e-01, 6.770796307673773162e-01, 8.417319663364264404e-01, 2.351094585829140993e-01, 1.491459096655864680e-01, 3.058161461362465805e-01, 7.510338342329964112e-01, 7.759941107776424651e-02, 8.712809863461533633e-01, 7.382252446872342722e-01, 7.478743587906901136e-02, 4.980892934531639948e-01, 3.692751047718480506e-01, 2.950740323028843703e-01, 5.596036446344402338e-01, 7.140379555162906788e-01, 2.701371443348667967e-01, 4.249047243845218147e-01, 7.277491297003353399e-01, 2.801251620465482206e-02, 2.336933205219940968e-01, 8.186988848799104934e-01, 8.340547820886382580e-01, 9.734020747930807183e-01, 3.826231829635456383e-01, 7.154496548171456194e-01, 4.593249838924374773e-01, 6.284104726548903619e-01, 8.824982181479709142e-01, 7.691332229469803883e-01, 8.963767134648403800e-01, 4.181736664736779296e-02, 2.938979131818151291e-01, 1.983605068548747186e-01, 2.930847938678686482e-02, 2.450913023132977597e-01, 9.813711119674237704e-01, 6.521490487217498355e-01, 5.474815884169783597e-01, 5.026804084027573782e-02, 6.704400026437578042e-01, 5.551662957771896778e-01, 4.044755361047197573e-01, 7.216179429994621364e-01, 4.983026336402340273e-01, 1.635657181120857839e-01, 2.752270460352257975e-01, 3.669834364024646689e-01, 5.758227273859011230e-01, 9.530173781660088439e-01, 9.701144413735709460e-01, 4.826298759991766718e-01, 2.307650591207509663e-02, 7.158082183718192937e-01, 6.742700149656307707e-01, 1.950919052372374618e-01, 3.270402419762892254e-01, 2.588483477910727970e-01, 4.127216928053578648e-02, 9.839790081157763213e-01, 1.986614118469280654e-01, 2.969615775978461936e-01, 6.320241199930376474e-02, 9.080069342973464686e-01, 7.411830725761120453e-02, 8.369322296578407538e-01, 6.257675962454372076e-01, 4.768594005107112260e-02, 5.954644371978431439e-01, 6.869138210986303061e-01, 1.113759479299161193e-01, 1.346957289043886341e-01, 8.010840368062493999e-01, 6.087336910193119621e-01, 3.070426064564961699e-01, 5.130509254223539761e-01, 3.335558324475224601e-01, 9.079948389083446481e-01, 7.474230853867613877e-01, 1.300521877697922157e-01, 4.229838979892709405e-01, 4.085186691439601780e-01, 9.239142749861765092e-01, 9.238933168620278025e-01, 4.774846885569117294e-02, 8.790628722566959929e-01, 9.317453019931363212e-01, 4.175078979865202711e-01, 4.682188433333821509e-01, 7.440383538627186599e-01, 2.933784387615708811e-01, 5.489762751294443577e-01, 1.561073904636670895e-01, 7.773821158054711189e-01, 8.403469462144402824e-01, 9.671687510027341395e-01, 7.067496748193144995e-01, 4.253723484426635837e-01, 8.503383473044423546e-02, 1.640169569958780382e-01, 9.661142558142905568e-01, 6.414578104657836510e-01, 1.154890134425132775e-01, 6.599028681041255728e-01, 7.017584750821770356e-01, 4.906491731204154494e-01, 5.617383053790014902e-02, 1.880849687863503372e-01, 2.423345520487644178e-01, 7.115691208628106557e-01, 7.024686234706561949e-01, 9.426543023457671922e-01, 7.490969190692762236e-01, 1.311160359218713767e-01, 2.405848836626180987e-01, 2.877284385232404262e-01, 8.002433014620328189e-01, 2.205203341887369550e-01, 6.358031692898657994e-01, 3.083443814201669575e-01, 8.906206834012788676e-01, 8.125177522411294317e-01, 8.985489516635776219e-01, 4.489731951148786537e-01, 1.725439585383229668e-01, 3.666615827659528426e-01, 9.387380754019932771e-01, 1.743774814342439194e-01, 8.207016972455624115e-01, 1.428222829059811426e-02, 6.234534893433236746e-01, 7.246234915159182645e-03, 2.333627971295285652e-01, 4.231065388579620667e-01, 9.060407551418604433e-01, 5.906581322181697624e-01, 9.520354402866105792e-01, 2.919831303733528838e-01, 3.019974412562863586e-01, 5.631178402723175935e-01, 2.047924578629300996e-01, 8.943887255148210702e-01, 2.872916204349758029e-01, 1.931919032608485631e-01, 5.509464391901016667e-01, 1.171422968938315157e-01, 3.819468662283781457e-01, 7.230797910803719031e-01, 1.615917616457385186e-01, 9.058572095520821543e-01, 3.667561767288103347e-01, 9.098124046918593111e-01, 6.333252038341216084e-01, 3.088953781074057492e-01, 8.538513576507065217e-01, 5.616250756238368169e-02, 9.645032899227851120e-01, 2.798382845537747410e-01, 4.612184908395280947e-01, 3.993293863759079382e-02, 2.356820606007435093e-01, 3.709771315843229389e-01, 1.593774595504179881e-01, 7.054652304178196109e-01, 1.847393057374972503e-01, 9.154601336460644889e-01, 1.171762716067485943e-01, 7.084810414464034478e-01, 6.560863286850948661e-02, 9.797757449232779026e-01, 9.471795677072354369e-01, 3.557746063489483079e-01, 4.147411402255323232e-01, 5.100785045840199317e-01, 2.021059286539045319e-01, 7.387553641297553431e-02, 8.400753538241094720e-01, 4.338174042540240416e-01, 1.816774108021652068e-01, 8.656148845982907236e-01, 1.540482243543552232e-01, 2.820759773278694316e-01, 2.508656568725966540e-01, 6.099942166905892860e-01, 9.801705044938719968e-01, 6.198609552211808982e-02, 9.212935889806173062e-02, 2.260236195157420414e-01, 7.556887661835532954e-01, 1.084002799894767666e-01, 9.764678938739331793e-01, 9.274578423251002013e-01, 8.429716998196461475e-01, 9.515415753885163308e-02, 8.184390145223970903e-01, 2.249663611963018672e-01, 7.605374543234616480e-01, 7.942191233445832221e-01, 9.545256005626697737e-01, 2.653390054316374091e-01, 1.322142686808149281e-01, 7.375925116099711909e-01, 9.775226658467423002e-01, 2.403943172612793555e-01, 7.775673998453985769e-01, 7.566452141260542053e-02, 6.230184717733568966e-01, 7.976165395355347965e-01, 3.340706077269650076e-01, 7.015209965650287538e-01, 2.861577825995209046e-01, 5.892948450101496150e-01, 8.367675778605944137e-01, 6.979313732219102340e-01, 8.283931739900737834e-02, 8.240500709176241667e-01, 2.791405975020762043e-01, 1.509407683567791092e-01, 5.277137863436281995e-03, 1.986506072343306450e-01, 8.813376071321961103e-01, 8.294619986910947707e-02, 8.335232931431313386e-02, 8.179619245763867230e-01, 8.409209265633997843e-01, 5.381443805974839290e-01, 3.333393920856853043e-01, 7.045464325946544371e-01, 5.034800911740097140e-01, 9.442959253220551963e-01, 5.362723837777453317e-01, 1.563598371158608780e-01, 3.050868556254728858e-01, 2.974449825923162691e-02, 7.021273790432744910e-01, 8.808536437754349580e-01, 3.938203282285185347e-01, 7.169033440511779487e-01, 9.667630343837503304e-01, 3.233384281692341378e-01, 1.401396694184020020e-01, 2.397103924491889859e-01, 8.779410116640351536e-01, 3.934616719147386310e-01, 9.898352914012358283e-01, 7.736331236773310582e-01, 2.912811664069365758e-01, 4.576684339549235703e-01, 5.934705138145114356e-01, 7.303572327626406402e-01, 5.143797502415762279e-01, 3.153679076336447090e-02, 6.698200515196768567e-02, 4.252871084232712762e-01, 3.440941429694104325e-01, 8.646999733807338995e-01, 4.965254318166644198e-01, 9.668084590869989725e-01, 8.341978739345776717e-01, 4.854995772402947302e-02, 7.450407649826417122e-01, 3.847759681531625064e-01, 3.391535375901175708e-01, 8.171755933537756533e-01, 2.572849823144767734e-01, 9.104447456025654972e-01, 2.427309139853636999e-01, 2.836376448174295350e-01, 4.392887297462959584e-01, 2.201840790898385858e-01, 7.979890986611799519e-01, 2.140764038472758313e-01, 6.469321703026339465e-01, 4.282487817655057372e-01, 8.168392317967380079e-01, 1.099429449766306938e-01, 1.510287312147030880e-01, 4.442016671691345620e-02, 1.219387616586297129e-01, 4.953800015472640261e-01, 9.031549433568507590e-01, 4.961003229192361141e-01, 8.042546338773126635e-01, 2.058079950280304882e-01, 8.935311145237423425e-01, 1.380725028573731861e-01, 2.147715596720897180e-01, 7.260023994014188631e-01, 8.565388076650334304e-01, 5.068708941535015056e-01, 2.465874691686707199e-01, 6.759694055588697514e-01, 9.306347616011729773e-01, 3.087568359578650723e-01, 1.569847905015572254e-01, 3.270288726101817645e-01, 4.223678450749240865e-01, 1.073487871341368416e-01, 5.612796178137730019e-01, 1.140047960829971146e-01, 9.948830807065763837e-01, 8.221800543480484169e-01, 8.837888327766022512e-01, 2.297813162414669708e-01, 6.944586690344158875e-01, 7.535326650032538875e-01, 6.168918949716595268e-02, 9.960562479990522355e-01, 3.493538313724826594e-01, 4.481250945930823626e-01, 5.178019587747384467e-02, 1.210408155972023669e-01, 3.323185520126333836e-01, 8.273533083687598655e-01, 1.369176844412561267e-01, 2.713529179447344772e-02, 1.537379611565161119e-01, 4.616800718548588756e-01, 8.566127618974644919e-01, 7.828483401502029926e-01, 1.444860507303950825e-01, 8.676073965854655956e-01, 2.891051405119383078e-01, 1.158835234393025271e-01, 4.389197614538302428e-02, 7.411978541914800989e-01, 4.381350119210357663e-01, 3.961721699709311872e-01, 2.141635637465025555e-01, 7.560958070796259811e-01, 2.695655373325916426e-01, 8.900733137730163502e-01, 8.988380626064406131e-01, 3.535585603555778667e-01, 2.768246584633662355e-01, 2.891507201484107004e-01, 2.491575078454095760e-01, 9.077215930505514452e-01, 2.722930206231859440e-01, 7.096870260923067164e-01, 3.775465431761598767e-01, 1.975208806467632083e-02, 3.255052462283347103e-01, 5.669515368186660575e-01, 5.139380886062651088e-01, 3.750657615011220303e-01, 9.963603825406331937e-01, 3.352766197958263056e-02, 1.887543405297029686e-01, 4.010013337343893425e-01, 1.874668760404604173e-01, 7.932883097715998089e-01, 3.931453309712480415e-01, 7.305182109711275684e-01, 6.891828786470990398e-01, 6.669768476919782918e-01, 8.574957745143922949e-01, 8.985687979898434596e-01, 2.304185976241412970e-01, 4.889636908871982657e-01, 9.164459169201416566e-01, 4.497871587478335376e-01, 1.124505100680945890e-01, 7.051957175248997345e-01, 1.855308150222070296e-01, 5.027050900856685489e-01, 5.765387024347246037e-01, 7.962875660780034393e-01, 4.697499490536799494e-01, 8.655127861200984096e-01, 1.681050445736342880e-01, 6.779272667458799417e-02, 7.191722231393412601e-01, 3.409483325521903696e-01, 2.104664386692082223e-01, 6.730261385688961484e-01, 9.293658469396285371e-01, 1.557501015326493432e-01, 2.643946029383822394e-01, 9.943545680779234397e-01, 6.057382735772162130e-01, 8.464236622680894051e-01, 3.225437267800325136e-01, 3.870131163920920714e-01, 7.845100156728349594e-01, 6.863757172385862582e-01, 8.567857521180595182e-01, 6.856725110336565621e-01, 2.118859213974911282e-01, 1.897702028875798697e-01, 9.426220698438536605e-02, 7.977802639831713671e-01, 4.004360115812364285e-01, 5.767332444610497877e-01, 9.729173970753188794e-01, 7.761812843031257181e-01, 1.965572668488649588e-01, 6.418660785441799854e-01, 5.693935225161345093e-01, 3.853194682403707216e-01, 5.696594460411378291e-01, 7.822693493281821508e-01, 2.185151439717715194e-01, 8.898024782401334765e-01, 1.155690559186805383e-01, 1.730165095815824339e-01, 8.027949243638633492e-01, 9.090698546045704598e-01, 8.230393436074433522e-01, 5.693988096529496445e-01, 9.584783339988237616e-01, 7.272368023016881899e-01, 4.700911400429203663e-02, 1.397894431104881319e-01, 1.042862279846324958e-01, 3.118149357192575577e-01, 8.146074552245358147e-01, 7.701268166141753690e-01, 7.479544478601718449e-02, 8.354344440732268673e-01, 1.880168130313858432e-01, 4.874996908349091829e-01, 9.543957949657043693e-01, 9.550188600651602355e-01, 4.206963572309153632e-01, 1.747876528468965407e-01, 5.179639612642900071e-01, 2.302076806862762143e-02, 2.543492844592206703e-01, 7.734498849377627883e-01, 4.324678261105824317e-01, 9.679184258597397505e-01, 4.410214546968275195e-01, 3.932597772951812454e-01, 6.109878858902252352e-01, 6.449564702610207645e-01, 8.877780562050984203e-01, 6.342149541100039478e-02, 8.551808746388882554e-01, 2.950269602855866147e-01, 5.800098805775527611e-01, 6.440436268490652427e-01, 3.740848235711690117e-01, 5.168696537870627328e-01, 6.484958106104979914e-01, 8.266569026758172622e-01, 9.585580785662931591e-01, 4.538500860807531123e-01, 1.671268956667091299e-01, 4.719454151710080619e-02, 8.694988244603562011e-01, 9.742512383317614155e-01, 8.921192349537058197e-01, 7.824415344184514343e-01, 9.628824566927292050e-01, 2.503503056054616205e-01, 7.424761238638539762e-01, 2.816105782140951308e-01, 6.773155122353283764e-01, 4.517885343881555826e-01, 7.408207110945321805e-01, 8.014773886452576379e-01, 7.728114772962111356e-01, 2.023820955785844700e-01, 1.163061943698634471e-01, 3.251840501921291621e-03, 1.984822667729158399e-02, 9.054858776257639352e-01, 7.554682969125671166e-01, 8.143386731931208100e-01, 5.961055039351298435e-01, 2.609120883394455137e-01, 4.058446594271623575e-01, 3.991808788358124360e-01, 1.846659006836202377e-01, 1.311535451320260115e-01, 9.392880774587704096e-01, 9.115096075907307416e-01, 9.056558686544958769e-01, 1.380727252784655079e-01, 3.569447648217231595e-01, 5.048944848633628579e-01, 2.576223528565859122e-01, 7.030760102068950301e-01, 3.404099474226263133e-01, 2.709762703446305654e-01, 2.429426660312785369e-01, 8.736655361126586250e-01, 5.850406337086441200e-01, 3.315338884473090220e-01, 4.863907836366822002e-01, 5.471566609546013593e-01, 3.619023100501046475e-01, 5.161324258866373249e-01, 6.159488521116853743e-01, 1.678943432176527029e-01, 2.359549851858106784e-01, 1.603562312382982302e-01, 5.560889117134787396e-01, 1.940554098175820141e-01, 9.006571672824840169e-01, 3.334020197143452990e-01, 1.746770432142963694e-02, 2.831397402628699211e-01, 6.721779697115874974e-01, 5.976762403941961871e-02, 2.255667317883985057e-01, 6.672347204964060863e-01, 6.117407579941513962e-01, 4.279675549021055847e-02, 3.030121869640860499e-01, 9.136885140995306687e-01, 9.975667325069428326e-01, 4.885657740996455223e-01, 5.538278146842673388e-01, 9.948901081698645621e-01, 2.470457916058748093e-01, 3.567437709828168435e-01, 4.077355014508015074e-01, 9.072878258251775296e-01, 3.646973821331841448e-01, 3.611670174100000130e-01, 9.383780138859509901e-01, 9.558237320214895139e-01, 3.775621987391098444e-01, 7.675547063627893296e-01, 4.696836084765757535e-01, 9.878038243956190900e-01, 8.571690705969414736e-01, 2.216700852986065728e-01, 2.760302909982548236e-01, 4.220016355506108763e-01, 3.299118462303247123e-01, 7.923992871499777602e-01, 1.202454541571307267e-01, 2.928490179933856963e-01, 3.352505290214963796e-01, 8.677917627253248778e-01, 5.228968926630629399e-01, 1.855223434780017833e-01, 3.409316638837323610e-01, 8.708843348323986877e-01, 8.577857822388439413e-01, 3.316196305254358601e-01, 5.245823245584336769e-01, 7.564260375539995085e-01, 6.329642930938450540e-01, 3.673558817582791014e-01, 5.402204825048020354e-01, 4.360657896724256521e-01, 1.350607565292545331e-01, 7.551768954575782677e-01, 7.475723241799393515e-01, 8.368700445333623339e-01, 1.755918275724532851e-02, 3.122207623916878894e-01, 3.546386571584742575e-01, 7.463569036795636435e-02, 7.675320816285602366e-02, 7.315283034541081308e-01, 8.685698886563681942e-01, 6.846974101994243167e-01, 3.624386179561975840e-01, 8.615643119796323468e-01, 6.600167731854147402e-01, 7.938257996502245950e-01, 1.868948537906879939e-02, 6.661246962689171269e-01, 9.927445251248699920e-01, 8.205165977364343721e-01, 6.535080515747783148e-01, 6.763355819902195920e-01, 6.784479885143762656e-01, 9.296039073367771133e-01, 6.532012944496775608e-01, 3.186018700331076370e-01, 7.633749825383040477e-01, 4.703501415744271164e-01, 3.978055414126024925e-01, 9.246597839836104837e-01, 9.215280584534957242e-02, 7.442256810403219403e-01, 5.068689674094315478e-01, 3.536408018007556886e-01, 8.368666137357779963e-03, 1.715982085593655282e-01, 9.758591050957734492e-01, 7.473648857276050661e-01, 8.191144216073477091e-01, 5.774942648471218520e-01, 1.056091459468413707e-01, 1.125159172111267480e-01, 8.246912659897664977e-01, 6.254467511249244271e-01, 3.924779889950436029e-01, 4.952901732044714955e-01, 8.476601238804075678e-01, 6.187513554181061082e-01, 1.316392295880262908e-02, 8.132034395472022004e-01, 6.972106336571478602e-01, 2.743010891127043438e-01, 4.798310352616480534e-01, 5.480974944972522023e-01, 1.849615253645850999e-01, 6.323248637271685624e-01, 9.882832110300284745e-01, 7.556073217126408822e-03, 6.503376265202779338e-01, 8.445697197586806704e-01, 5.724482183635626331e-01, 6.866355789400342413e-01, 7.284754835612624602e-01, 6.025696344833127993e-01, 1.147888501788141419e-01, 9.862788427809159320e-01, 4.330773429311873812e-04, 6.715038286188156347e-01, 5.079402606267092724e-01, 6.585244907523160052e-01, 9.530451375468008690e-01, 4.271132950143664564e-01, 3.247703281522737462e-01, 1.308567766290514266e-02, 6.052809205720283137e-01, 2.427767272630385054e-02, 2.927941990844558640e-01, 1.940791179809034928e-01, 9.824486033425803289e-01, 5.674968759697316401e-01, 6.786078028524884509e-01, 4.430406216179145762e-01, 1.336751546285630012e-02, 8.855668820398060470e-01, 4.123389444649820379e-01, 6.498369130198182742e-01, 9.103886623131854927e-01, 7.834833718814978587e-01, 2.979663315236535381e-01, 9.918895103940195135e-01, 9.570888976776354973e-01, 5.876430786971152953e-01, 5.732897703475461210e-02, 7.729573942524425867e-01, 7.940295589005011978e-01, 7.717414707501141224e-01, 6.447618235952450316e-01, 8.818190377892904941e-01, 4.885136078899667833e-01, 4.673456397506738913e-01, 2.805106305005525824e-01, 7.837177544860975953e-01, 7.008885697024460626e-01, 9.277339320674057310e-01, 6.110949835490476767e-01, 8.281111336323960792e-01, 9.990074806204538582e-01, 3.358147189902606078e-01, 3.391400523197775352e-02, 7.707595159279937436e-01, 7.633293550290581875e-01, 5.996907353091814885e-01, 8.121591917058912369e-01, 5.072269204426061995e-01, 1.182827302439231204e-01, 9.191676892871584181e-01, 7.358163592842670298e-02, 2.016183239002489747e-01, 3.459129942784071043e-01, 7.694202546862324299e-01, 6.237933645174335018e-01, 2.953622776337641032e-01, 9.422835829065477897e-01, 7.346940215693920084e-01, 7.710979668927520070e-02, 3.361547655175491922e-01, 7.830677474365379531e-01, 3.875259135582818093e-01, 3.900389997249717466e-01, 7.137262434721305393e-01, 6.621634799028949248e-01, 3.537222449937550972e-01, 5.223092346049158508e-01, 5.865847332749184462e-01, 7.963642439819197394e-01, 6.598017305884977812e-01, 1.948736081455492153e-01, 5.654760096416895365e-01, 1.137214645559226217e-01, 5.972014924506222622e-01, 1.961958746294395484e-01, 2.952266090540020538e-01, 7.811306766264266566e-01, 8.178553555289646004e-01, 9.718709696239248297e-01, 7.072256671046593945e-01, 5.982304510718745583e-01, 8.514367727224565474e-01, 3.694181770775397666e-01, 9.772926570565541038e-01, 4.114498849536377817e-02, 1.516985048122475865e-01, 8.721109246636065127e-01, 6.252812885963606737e-01, 9.724968794573872755e-01, 5.291831700802572813e-01, 7.765854527432655141e-01, 3.326973702646746078e-01, 7.691397306202564232e-01, 1.015729446433825123e-01, 3.018286935379631553e-01, 8.262740816465952154e-01, 3.687188390255907167e-01, 8.157328023479717416e-01, 2.469729144283449307e-01, 3.865101927588199260e-02, 3.526011587490907040e-02, 4.472493315893560917e-01, 1.793820364581433791e-01, 5.456278914943314406e-01, 5.628873608246236504e-01, 5.334988590178832979e-01, 9.847612718815937916e-01, 9.589082086964411111e-01, 6.110152117924275705e-01, 8.694566346091162079e-02, 5.504292270779346241e-01, 7.346441648383095213e-01, 5.420490411303858780e-01, 4.233304155129767876e-01, 5.969421718899937668e-01, 1.050658172825450487e-01, 1.198887605212091700e-01, 8.546472281943319205e-01, 9.318137383475563196e-01, 1.292127676717262641e-01, 6.341843302729339715e-01, 3.380263659472996784e-01, 8.426569127263094927e-01, 5.017201513627647103e-01, 1.025001986565317047e-01, 6.504698409695897077e-01, 4.405677578635111002e-01, 1.153940971668415555e-01, 2.263704210627772440e-01, 9.486674164870433357e-01, 3.390477507525335721e-01, 3.550990794974961395e-01, 8.295070878084663812e-01, 8.665092554497577648e-01, 1.291035674244648823e-01, 4.537184610672677643e-01, 4.845353817373395655e-01, 4.891090583469817621e-01, 3.265076572674123767e-01, 8.581350323209420150e-01, 8.949565550126008517e-01, 6.051145361460948946e-01, 7.547883870956391128e-01, 8.084802457439981271e-01, 2.452403785226843214e-01, 6.920485200726294028e-01, 7.026162372055965166e-01, 1.164988426998586624e-01, 6.919136254905735584e-01, 5.904709993615812058e-01, 2.198932961604308511e-01, 5.326923064375179706e-01, 9.895056196277678406e-01, 1.160549213081136094e-01, 6.869770862951382062e-01, 1.306547959431219041e-01, 7.010595929301892681e-01, 3.242051737825739632e-01, 1.179708031082175694e-02, 1.068404570289523958e-01, 4.507321650264465296e-01, 2.963742554414772745e-01, 3.703908834239081904e-01, 6.611750641855052013e-02, 9.888714528989204222e-01, 8.252787761367120778e-01, 2.847319174473451810e-03, 1.079137367910144724e-01, 6.762010475165869394e-02, 8.463215015997698210e-01, 7.099857271097197442e-01, 9.890762159568550205e-01, 3.033852266096798700e-01, 4.495685737811147553e-01, 4.115238267150916340e-01, 3.916411242989767394e-01, 7.787360291465602602e-01, 1.656163140061462508e-02, 9.138701340999091371e-01, 8.145866368766577770e-01, 9.220715367646700189e-01, 9.277980756965109599e-01, 3.380270265839538935e-01, 9.268823281650092616e-01, 7.916709294626216309e-01, 5.320359743154827736e-01, 2.691189523143730847e-02, 8.054268952984211527e-01, 8.137087768792177211e-01, 3.477889793424758236e-01, 7.230772736050560257e-01, 8.933585002458461766e-01, 2.730288672409269535e-01, 7.075446119185908600e-01, 4.138447814419013993e-01, 4.114215403676035887e-01, 3.552989748618722854e-01, 6.811333859473153174e-01, 2.875747873574215074e-02, 8.410058460865473817e-01, 1.344659201772068977e-02, 7.726332285910492148e-01, 3.702227660847150909e-02, 2.956203925711191616e-01, 5.139974618484915991e-01, 3.208055146669303581e-01, 8.371596348239069840e-01, 8.009115494628626930e-02, 4.591662666386531894e-02, 7.008574095929692716e-01, 6.301955321043874181e-02, 3.103185419291183411e-01, 8.512600826442803248e-01, 7.472034555627889985e-01, 5.634091979701905117e-02, 8.062730685572934153e-01, 7.638698582312940522e-01, 2.896258786040272204e-01, 3.939718217759711760e-01, 3.465149181772281956e-02, 5.126361012214064594e-01, 5.500792637786751094e-01, 8.130489614792555386e-01, 2.148716691283182323e-01, 4.884449519507799709e-01, 7.390315891359298117e-01, 2.179188265699037730e-01, 2.198921827671132256e-01, 8.743659657600770796e-01, 6.374865634906157208e-01, 3.715383349703869076e-01, 9.040670230027654242e-01, 1.171706406997071737e-01, 1.310312088418566778e-01, 1.229078826211440177e-02, 7.535786901026169105e-01, 8.351282601410250361e-01, 2.484559183102169611e-01, 1.906704314782335374e-01, 4.753886612807816658e-01, 7.896206352135989315e-01, 9.648178918527163805e-01, 8.494596711022118773e-01, 2.153300240722734460e-01, 9.467080571721085969e-01, 7.309050683062848774e-01, 5.709830630224888015e-01, 4.783141463459244513e-01, 6.397814020896208653e-01, 9.057422061198064922e-01, 1.483069717650314645e-01, 5.708559948184748212e-01, 4.560924207851989320e-02, 4.514156746531443609e-01, 9.189704912137208748e-01, 3.071033253673154939e-01, 3.592514706645427713e-01, 4.734751445201141884e-01, 1.445131735043628796e-01, 9.096434757579772157e-01, 7.907737662176135274e-01, 2.364182465966475563e-02, 6.964751929341380654e-01, 7.817527814621471061e-01, 6.572739477109573736e-01, 4.891661692390071869e-01, 2.566545057206449099e-01, 7.123520214810005191e-01, 2.471185630342787043e-01, 1.606046251828859572e-01, 5.088464091795574795e-01, 9.957300567167526317e-01, 5.815843042672821372e-01, 1.702461900709229814e-01, 7.171031237791671842e-01, 1.106722315226782438e-01, 5.785070467917252657e-02, 6.810004462950780546e-01, 5.602308899022875877e-02, 5.543174811063259488e-01, 7.120755567303279632e-01, 7.208231526594276461e-01, 7.390512154072159667e-01, 5.486922719217829369e-01, 2.782258143009390672e-01, 3.860921103738396698e-01, 5.029449775152329272e-01, 9.723964678529317673e-01, 9.721871021205047425e-01, 9.604190831798419259e-01, 5.643275681847345071e-01, 3.450500238364818673e-01, 1.412481034246316769e-01, 9.516329556289118696e-02, 1.805846027316642677e-01, 8.351932627404600185e-01, 6.398237739276920744e-01, 9.114266762042466663e-01, 6.887999295169912328e-02, 2.983103449401466323e-01, 6.035850312058621547e-01, 5.529445623737566651e-01, 9.103834082046393661e-01, 5.720486389747148070e-02, 7.735976464566464150e-01, 5.493780563032995001e-01, 1.653140083181744435e-01, 5.715323833017320609e-01, 2.001676547477909407e-01, 8.866750329413741749e-01, 5.325977269214703380e-01, 5.599566234616266680e-01, 6.447550370993302415e-01, 9.382697739319860730e-01, 9.641991102978673123e-01, 9.876413507749606802e-02, 9.435716324558263146e-01, 4.701316003522416076e-01, 4.098988011678114662e-01, 7.460750882104275616e-01, 4.566263472807186585e-01, 1.838221852098704812e-01, 2.790990713038788984e-01, 9.804685217637530981e-01, 7.311812487833028174e-01, 4.889718499905539029e-02, 9.807027212603032507e-02, 2.769011588207231922e-01, 2.992226589796992409e-01, 8.117917449043954292e-01, 2.746057991056715525e-02, 5.977463777420786162e-01, 8.080201217931284319e-01, 3.058512610470308091e-01, 5.728824873220418334e-01, 3.755821451726372717e-01, 3.854850264081985944e-01, 9.813845460913533936e-01, 2.708729713087406621e-01, 4.508300469279272749e-01, 7.185139955184834948e-01, 9.377516683132957054e-01, 3.090488518861380096e-01, 5.523096174984776230e-01, 3.577567612462861923e-03, 2.874361612018541678e-01, 4.717370359377835998e-01, 7.331306579804972579e-01, 3.908599829588551011e-01, 5.067526145267849946e-01, 5.338404025557930144e-02, 2.821435074346098637e-01, 4.601956023351045921e-01, 8.787128724024714232e-01, 4.352335466940837616e-02, 7.322987114306337419e-01, 5.852998592745295436e-01, 7.383384078736019429e-01, 5.014113645719645573e-01, 9.119988040091263626e-01, 6.470787384540613862e-01, 2.324216948413410644e-01, 8.362144700954532439e-01, 4.316807809878548396e-01, 2.003278017113573062e-01, 6.460179668284825594e-01, 9.807889843553108111e-02, 6.693516597743028873e-01, 8.017630325505993583e-02, 9.530206269805276131e-02, 7.291179167158863272e-01, 4.480682731037597399e-01, 7.911111310137521890e-01, 3.746547734140529551e-01, 4.649598064413006937e-01, 6.146574979800992766e-01, 7.089942135770498366e-01, 3.032307057557050989e-01, 1.570668397633984137e-01, 3.054991308579703135e-01, 5.901129964781535175e-01, 1.437397511549886632e-02, 2.043592661451892334e-01, 3.987922470642454309e-01, 5.229095022263021697e-01, 8.751508230883748851e-01, 6.180752159803021284e-01, 4.650817470504590712e-01, 4.558526728740298073e-01, 1.092117475998124476e-01, 4.101477995942356958e-02, 8.458749556759445065e-01, 3.622218950651326375e-01, 8.750578022475767881e-01, 1.896641880822829140e-01, 3.885018961482251676e-01, 2.889284783648302102e-01, 2.122347505007972646e-01, 5.326599187322560436e-01, 3.286986416482282625e-01, 9.397327320148323171e-01, 7.645954193027743040e-01, 2.242935857965411561e-01, 8.333868844427019251e-01, 9.396653504322820538e-01, 2.479241307746644918e-01, 5.081324737169726768e-01, 5.251005636633258034e-01, 8.574746091120977187e-02, 4.209969708598382265e-01, 2.298574967973279481e-01, 3.085402715157612441e-01, 9.528679486665547760e-01, 2.049512032556921048e-01, 1.873176032817963632e-01, 4.775824568103373968e-01, 7.686645859323926189e-01, 4.982858511231609833e-01, 5.002075504703107356e-02, 9.945205305428734821e-01, 4.922181477914631120e-01, 9.414430698474856030e-01, 7.987831720112749112e-01, 1.605136649585353070e-01, 9.423613810773474597e-01, 9.923591882201063807e-01, 4.459664372743470800e-02, 4.653030362535788278e-01, 3.908402196575827547e-01, 5.416836672654377072e-01, 5.081140546205196173e-01, 6.071198419589209916e-01, 4.622034980990997743e-01, 6.050587990387715775e-01, 9.353325355708510536e-01, 8.119294915535290036e-01, 2.057553269265476603e-01, 2.609729263680482525e-01, 7.160962750005479549e-01, 4.733270974035674872e-01, 1.496961602401540581e-01, 1.604447764658278527e-02, 9.771466138535233048e-01, 4.633089351161247538e-01, 5.614865633301319159e-01, 9.309973494164328622e-01, 1.526982791302952669e-01, 6.536135738623711777e-01, 8.702163953843687905e-01, 8.298931944197692964e-03, 5.741414539747961010e-01, 6.100625222307767270e-01, 1.263874208933843946e-01, 2.957703617041310129e-01, 7.999994212792668202e-01, 5.431695079853988695e-01, 7.513573642497598515e-01, 4.572727062397556330e-01, 2.110206356597478239e-01, 6.175313875128305430e-01, 5.581552251852629487e-01, 1.074698092490163903e-01, 8.033788485326193163e-01, 7.860606771641429624e-01, 7.478145202154591331e-01, 9.557894246475139299e-01, 6.389254645951996103e-01, 4.378509818113608398e-01, 6.962519966669351579e-01, 8.719027973284482202e-01, 1.467792401647720624e-01, 3.103256536494539697e-01, 7.607042772393526331e-01, 5.432856333328526244e-01, 8.068885062670915209e-01, 7.985088854258863833e-01, 2.554785964105943941e-01, 5.367746966212267878e-01, 6.587371444322611680e-01, 6.678178454952941046e-01, 4.046499308394100325e-01, 8.375870283006521255e-01, 5.809536890328407255e-01, 9.922566216302992625e-01, 9.182644673455954143e-01, 5.436585376529781133e-01, 3.953487165524289804e-01, 5.781871792572635949e-01, 3.969296336695281036e-01, 6.016575203042408004e-01, 2.235964472388523860e-01, 4.194764823915527741e-01, 7.313620624398229353e-01, 1.203310297240215293e-01, 7.073226284731753966e-01, 7.211557538997903638e-01, 3.321734002348164516e-02, 4.908349315087284226e-01, 5.681378039957051262e-01, 9.049846632741735952e-01, 7.938730671357104862e-01, 7.048352690283969657e-02, 4.730241349707495768e-01, 7.133266206811827992e-01, 7.382793601618735657e-01, 6.529526219595341852e-01, 1.511805757702884279e-01, 4.118906589174110566e-01, 4.109549680769389313e-01, 8.606944490580499263e-01, 3.750725247476432989e-01, 8.922714860814950910e-01, 4.643801068133518450e-02, 5.906182984354574339e-02, 8.912045703350011117e-01, 1.766498299608827982e-01, 5.868692643704815914e-01, 6.177186781184013098e-01, 6.024803599462206227e-01, 6.177337741576309771e-01, 8.952179059331594191e-01, 2.903239894748813610e-01, 8.615551861853329996e-01, 2.299775445561958731e-01, 4.661391034557583746e-01, 7.710877158446572954e-01, 2.498789972927507527e-02, 7.196440940631417815e-01, 1.676383787858185632e-03, 7.159665886263683054e-01, 9.199648310829855458e-01, 4.028671330944066931e-01, 1.409678475521512209e-01, 5.886236392833404940e-01, 6.421531218627675175e-01, 1.951822852013203047e-01, 3.934168206656374345e-02, 6.717646724770971467e-01, 7.271938153052804887e-01, 8.382490201279066966e-01, 5.783010615763345408e-01, 1.779696028089356730e-01, 4.283720294271339268e-01, 4.584055106973962679e-01, 7.720324477635187588e-01, 1.530850562306542706e-01, 9.848396750208338046e-01, 1.141656358955472211e-01, 3.721737095441366439e-01, 3.832489809940702874e-01, 4.890097991150593737e-01, 7.166644925204169736e-01, 4.621793124156053367e-01, 7.009102446531840780e-01, 8.723566099738910840e-01, 8.176759237989256190e-01, 2.134031164367558853e-01, 8.814851774017115060e-01, 7.345174426328839878e-01, 3.491993260734752580e-01, 2.833995772542270974e-01, 6.326245962189593897e-01, 5.594022381392643739e-02, 8.993716297868370457e-01, 7.984677563676471079e-01, 9.384653827325788455e-01, 7.329457093581455140e-01, 8.635293908054046952e-01, 4.783661506018197507e-01, 1.358204247186652891e-01, 1.677759914554486642e-01, 3.740905864248186830e-01, 3.244100595602399939e-01, 1.421678316143084875e-01, 1.462642064689541888e-01, 1.396134734243094644e-01, 2.719494842902491216e-01, 3.153910157319244623e-01, 4.708468420300444546e-01, 9.009691949223322949e-01, 9.088050509916730801e-01, 3.897030154515815914e-01, 6.133512244559100740e-02, 7.761091940729295535e-01, 4.408966069672511368e-01, 2.967805862785805604e-01, 1.915441208563150102e-02, 3.025660537110239634e-01, 3.023076933002160072e-01, 8.466256664248860142e-01, 1.691636364518267488e-02, 7.726529250784062164e-01, 3.858401389474331866e-01, 6.311833530364047151e-01, 7.371089649843620695e-02, 1.819506522222744116e-01, 4.678684225654902162e-01, 5.388854103702591658e-01, 1.135758770577860177e-01, 8.021975794359729184e-01, 5.904710873861689358e-01, 5.484523205645521621e-02, 4.510844550968925448e-01, 3.266618317870298993e-01, 1.880888732617069792e-01, 6.989209789636807724e-01, 1.020375085643999702e-01, 7.057505692686409926e-01, 1.423797050822097898e-01, 5.900522594053659864e-01, 4.959582893570654849e-01, 9.297774876616781148e-01, 3.513496288189186557e-03, 1.208867314479241256e-01, 5.938594664885116226e-01, 7.315421600595201079e-01, 3.326987524738578283e-02, 3.506533751205749838e-01, 7.680569089312107023e-01, 2.310851829318567863e-01, 2.201280653680946775e-01, 8.470479918816194997e-01, 5.312119341200083333e-01, 4.053960648636401598e-01, 9.797882441826044619e-01, 9.545014517672200105e-01, 8.854186214388645171e-01, 6.534746047251419054e-02, 7.550889795204309696e-01, 9.845637020157839772e-03, 6.177285030626672446e-01, 4.061670264606295211e-01, 1.939803708691902051e-01, 2.570743169996113353e-02, 9.410897228941894621e-01, 7.504139066444112105e-01, 5.332177834260681815e-01, 3.005915753757582021e-01, 5.655840982754367641e-02, 3.321962806214657782e-01, 2.819935291468289584e-01, 6.765899432585886775e-02, 9.605457155229617516e-01, 4.335435850240684785e-01, 5.213655663540610607e-01, 2.716656039793869937e-01, 3.113334178095284455e-01, 9.193250808856352485e-01, 2.738684696186983181e-01, 3.026807457342025609e-01, 3.392208229135488806e-01, 7.920225932295855698e-01, 5.916210672729792508e-01, 4.997621550988719241e-02, 4.729246510672701631e-01, 1.813032919790015240e-01, 7.431814336843571844e-01, 6.997124113482141583e-01, 6.374045058949487919e-01, 1.040348948529661033e-01, 2.478084831416945966e-01, 3.591943540846567196e-01, 6.663389894424636140e-01, 2.039532200748460644e-01, 8.194749187058044670e-01, 5.443955905482088520e-01, 5.370981450648852906e-01, 8.380068401018394564e-01, 7.888568382604271845e-01, 5.200443120086605253e-01, 6.656927463393506050e-01, 1.649418911612962613e-01, 7.678659472422514343e-01, 6.495912401430714578e-01, 5.184138264291505982e-02, 3.199056507169993901e-01, 6.166640778885450480e-01, 3.816432964058356636e-01, 7.392491820923440260e-01, 6.263275318704739636e-01, 6.860829843072493439e-01, 6.139082952182118857e-01, 5.096479138799556718e-01, 8.090481517480095919e-01, 4.398140420345238444e-01, 5.201911820699717248e-01, 9.839892534499219412e-01, 2.444270226268361046e-01, 4.078425713882812276e-01, 5.193317772154797396e-01, 7.903272667008340857e-01, 1.746524425984057327e-01, 9.339084202100845777e-01, 6.540304961331833145e-01, 6.495504478728817421e-01, 6.601695355866948889e-01, 2.425281305450734948e-01, 8.221526819414323173e-01, 6.139368880166853337e-01, 1.002168260337825134e-01, 7.460538247856572935e-01, 3.423679676653254567e-01, 5.674831562104917237e-01, 4.733388887130133282e-01, 8.459044952075186474e-01, 4.466614520195888449e-02, 2.516784415887202697e-01, 2.139422777047323421e-01, 8.820091367836156993e-01, 4.559045936184227821e-01, 2.264330125540620076e-01, 8.798328469580833922e-01, 8.182330966852354726e-01, 7.038422804193257276e-01, 2.593447006061912474e-01, 2.302291059760803171e-01, 1.817806979485050711e-01, 5.848999326885627736e-01, 1.762559761248324863e-01, 5.444719694188130399e-01, 7.025383971411013340e-01, 2.696117017444582542e-01, 6.930258591675565460e-01, 6.645563612291766065e-01, 6.563154995916308243e-01, 6.128996430612158042e-01, 9.104681677826071962e-01, 4.181942772415065956e-01, 8.286292668282326801e-01, 1.158519544069028101e-01, 5.100207538803673835e-01, 6.008109605939703224e-01, 5.124972248072678926e-01, 3.653358436514189123e-01, 9.917155394344536745e-01, 1.187214073685273208e-01, 6.773565373661071254e-01, 8.465757325934745170e-01, 9.839808324608364520e-01, 9.557813985680739810e-01, 4.244342224322111834e-01, 2.155375266874144657e-01, 4.090695848650120481e-01, 6.578989230675583166e-02, 6.089159560265078319e-02, 5.820976657169860680e-01, 1.853509329668078520e-01, 8.456108297105339178e-01, 1.317868015527380310e-01, 3.037741348404405795e-01, 7.276817546378612223e-01, 4.095110615473700477e-01, 5.057410640641593069e-01, 3.208900300840403785e-01, 9.921933452782697449e-01, 4.159385813189359071e-01, 7.925880644134952746e-01, 4.939255120760865925e-01, 1.465066895793514234e-01, 1.931510077197698683e-01, 4.841665117656495099e-01, 9.263951976917328412e-02, 1.210280085475392564e-01, 3.127686018859269224e-01, 6.988877009333881452e-01, 7.331439560377093212e-01, 3.968508250057442011e-01, 3.055318730788102455e-01, 2.861932977524341837e-01, 5.197550521545171165e-01, 7.125089163616544763e-01, 7.086337664821888982e-01, 2.392557015811806048e-02, 3.317391570709850995e-02, 7.221195313378186986e-01, 1.169457781367043286e-01, 1.998588583516388850e-01, 2.794266874368254161e-01, 7.728738785150371937e-01, 5.432838202262357807e-01, 4.294741304836937612e-01, 5.990825660077239156e-01, 4.836909768599698678e-01, 4.862185788308895917e-01, 4.178506542721964756e-01, 6.591342774119357539e-01, 6.422329451930659794e-02, 1.961574785201133098e-01, 2.224584200802292577e-01, 9.468703025446153498e-01, 5.881581429968580910e-01, 6.422500371097515925e-01, 8.935846804776212959e-01, 9.172638826207973883e-01, 8.060026664579023059e-02, 3.624404096214297460e-02, 9.185466386739667977e-01, 4.004037169918477912e-01, 3.135844536161324081e-01, 5.414374427506334353e-01, 6.994170298356185977e-01, 4.617290684172216109e-01, 4.182184331630766638e-01, 4.241838066235583682e-01, 5.521746229757092950e-01, 5.390811690873493767e-01, 8.540306619400819255e-01, 2.416539228402314887e-01, 4.087023523399706537e-01, 2.097328027284873497e-01, 9.852192849787818618e-01, 1.580337595425020669e-01, 9.435303331606049726e-01, 4.749346317884838298e-01, 9.825310172087343696e-01, 2.645379964772660575e-01, 3.554495161448539137e-02, 1.612714543487431540e-01, 1.273909902673435457e-02, 6.173686596858123966e-03, 3.458175762670933073e-01, 9.835677933638993231e-01, 4.987437739223197219e-01, 7.889001700153600583e-01, 2.285750225062143370e-01, 2.719302217206543970e-01, 6.604936981355471470e-01, 8.863868194153375901e-01, 1.332220072401021638e-01, 8.688764204748667952e-01, 9.278179285511323204e-02, 1.079814548357421744e-01, 8.936188161676834607e-01, 8.419909731497043914e-01, 8.898596783277035183e-01, 5.093585913263709575e-02, 3.903379831309497505e-01, 1.035927972059309810e-01, 3.466526100643472774e-01, 9.421856427819097490e-01, 4.980019161893538548e-01, 3.947991666893326812e-01, 6.235623115151340823e-01, 1.537438722259005519e-01, 2.624812322086180205e-01, 8.344118172044906467e-01, 8.079102657614076755e-01, 7.939935297389046076e-02, 3.652369588725377647e-01, 9.619041099850910159e-01, 2.082494723875649711e-01, 6.589073864406220782e-01, 6.618107590323817346e-01, 4.708900655368783994e-01, 1.185366480427646474e-01, 2.670766967404892278e-01, 8.785305326436112505e-01, 7.921718134987821847e-01, 5.845678847885941165e-01, 2.942385457940338567e-01, 9.461401659091980276e-01, 6.586268446152796496e-01, 3.183467198488539318e-01, 4.349091718958075087e-02, 1.855596900862016433e-03, 2.183775021495916457e-01, 2.519461501658833424e-01, 9.615590913550789987e-01, 3.392040038955896342e-01, 8.050703500080597097e-01, 2.969581078223982318e-01, 3.677239114127173192e-01, 9.187039134997525558e-01, 6.371743121133001120e-01, 6.917663430467393404e-01, 3.659227774844131531e-02, 8.224619303689338912e-01, 4.443561649907658007e-01, 8.024482716705777507e-01, 2.520083571132286648e-02, 4.854642217982449437e-01, 1.500248588086268986e-01, 6.966312529972155110e-01, 3.353225901329475733e-01, 4.126972831212403353e-02, 6.996401613627897254e-01, 7.634448221180258898e-01, 1.792191912557730138e-01, 2.524162464861881006e-01, 2.249764654112992035e-01, 2.097894305119634151e-01, 6.754124230324503042e-01, 3.591243143792316461e-01, 4.728126244435896242e-01, 9.881451070855175045e-01, 1.093913913795336867e-01, 8.646290381612659059e-01, 9.125518057735403088e-02, 4.129669125560735399e-01, 2.852613036977630356e-01, 9.692039910108920520e-01, 1.159625666295773308e-02, 8.696196490450077698e-01, 9.859980948415921764e-01, 6.945048748746537326e-01, 2.745930239651125371e-01, 9.942838906397860610e-01, 3.611193465485377230e-01, 9.182961400187359402e-01, 9.463335128266932017e-01, 4.212387524712865594e-01, 3.312680934178136583e-01, 1.373030393294877305e-01, 9.761957736630432203e-01, 4.018187353185050381e-01, 9.212004985893103293e-02, 7.128005588686876504e-01, 4.030466425070973746e-01, 5.472503727520838801e-01, 6.058066945430560235e-01, 5.310004694071839282e-01, 3.429162181912019935e-01, 3.775831538545195154e-01, 1.215837062122376300e-01, 8.606368263779050620e-01, 3.049522962223740752e-01, 1.561458913208551291e-01, 2.518083207383629840e-02, 2.188996688991828032e-01, 4.002869207198817558e-01, 7.098412056025499295e-02, 1.368990958432611260e-01, 1.820407686840785910e-01, 4.231760876238768176e-01, 8.381916520230457968e-01, 4.591294949459855390e-01, 2.031250644558191265e-02, 7.827922453211629827e-01, 3.222096533738421642e-01, 9.194645833155812298e-02, 3.820789283072773546e-01, 3.375103894222853396e-01, 6.109049277727902627e-01, 2.218413464740511820e-01, 2.140285169035458790e-01, 5.062784761570036096e-01, 4.198269821645062017e-01, 6.207033778615315134e-01, 1.392281594105247988e-01, 9.671027472302845540e-01, 9.062923188505700445e-01, 7.957115573452625545e-01, 7.355470141092566028e-01, 7.839713179585771075e-01, 4.122540478453738944e-01, 8.956593514937131184e-01, 6.158868578362602930e-01, 8.798605508110785012e-01, 1.897188120520975352e-01, 9.283717643607806158e-01, 7.410752140986022196e-01, 1.320162144320772279e-01, 1.899744270870771246e-01, 2.343630866712589564e-02, 6.883054832924063726e-01, 7.294668572555737529e-02, 6.669600559553729990e-01, 7.430564947037461287e-01, 1.585658043580706056e-01, 5.222206020611148691e-01, 6.775888895222227370e-01, 1.793550861507914318e-01, 3.182424953046771865e-01, 1.684196136056370086e-01, 8.108699479626451101e-01, 4.726434560963812537e-01, 2.399458695227861815e-01, 8.490782584566154423e-01, 9.536814208556607664e-01, 2.926773543933960942e-01, 8.564309645876133636e-01, 2.283323784160740111e-03, 8.957533824260260902e-01, 6.638908386936920314e-01, 2.315591540191858366e-01, 7.710760968424402728e-01, 8.460366633862544117e-02, 7.122136022199472283e-01, 1.833869726947309209e-01, 6.094029586989134772e-01, 2.559767138458179502e-03, 5.824211200238718078e-01, 8.662911345902865046e-01, 7.696603831911406068e-01, 6.832884495479547571e-01, 2.467267906781696052e-01, 1.755016058074098106e-01, 9.186819616129667798e-01, 8.209427738654782036e-01, 9.950711313513080913e-01, 8.277055335579390841e-03, 3.966436002399156280e-01, 2.216871268039933007e-01, 1.523028275261650577e-01, 4.030701229842383049e-02, 5.274560332416294850e-01, 4.970761905277790715e-01, 8.374921995096225036e-01, 9.216461430754101514e-01, 2.490693254588392889e-03, 5.210163463571790832e-01, 7.756222832997003991e-01, 2.190957344134343288e-01, 3.739465583243581359e-01, 8.271963543568042754e-01, 8.380475946483557648e-01, 4.412224868929258692e-01, 9.203655866964501886e-01, 7.712529917424393311e-01, 8.062647877283557474e-01, 6.746635266825430355e-01, 1.965775575939298636e-01, 6.231699935304491067e-02, 2.265453380539228512e-01, 8.907820363776336459e-01, 2.133665369120307798e-02, 6.098336397474447140e-02, 5.458379727634834477e-01, 4.533760994082540741e-01, 9.434464933461974567e-01, 2.916133423718463846e-01, 4.110747962894934493e-01, 3.167924674306029087e-01, 4.886389634909684698e-01, 3.328524854748691197e-01, 1.060287028279463806e-01, 3.714275944328201962e-01, 9.296716642719473622e-01, 6.537082307080016585e-02, 2.491035411149866707e-02, 4.898191865241374732e-01, 6.467781112448478531e-01, 3.015452764750458647e-01, 3.940713771825117839e-01, 9.076131912417778613e-01, 6.633460021253290151e-02, 4.729608817891810535e-01, 6.707040783425683994e-01, 4.987034337631540137e-01, 8.708940874304538227e-02, 1.436866389053842452e-01, 1.760525733528294223e-01, 9.230718743193547793e-01, 4.892930792917538074e-01, 6.245351869757255203e-01, 8.805624507688639691e-01, 4.392293455535864477e-01, 2.692158902924353669e-01, 9.031388890100489064e-01, 2.178640696468677751e-01, 6.591290548907347002e-01, 5.815574312795685624e-02, 5.188508791841438539e-01, 3.489955558811742020e-01, 3.778438718468939417e-01, 7.148365043994718837e-01, 9.409056785584292149e-01, 9.363416297585764880e-01, 5.580221750526536129e-01, 9.016473631959823765e-01, 3.155126701919394594e-02, 1.137062354264699593e-01, 1.309424895367107267e-01, 6.527557192525449414e-01, 7.712148161506718891e-01, 8.947307631973118180e-01, 2.845774647304329941e-01, 9.433466514333099795e-02, 3.581090406814124716e-02, 2.381983582256901599e-01, 4.764422427890460110e-01, 8.710948881634039687e-01, 6.618636295954219984e-01, 8.810939209040069553e-01, 8.840343683646672002e-01, 9.349161298362090866e-01, 8.917748327194664482e-01, 6.777486263797599664e-01, 4.641125823991217869e-01, 6.771176156227073362e-01, 1.200056317922815197e-02, 6.041399591477946140e-01, 6.058422890914091363e-01, 9.434693695246056944e-01, 7.352947137976212355e-01, 4.796850536420671496e-01, 6.858916540930407035e-02, 3.385174981785797899e-01, 7.087549475353768225e-01, 6.833698190366248593e-01, 7.780505505016741541e-01, 4.766555993798033408e-01, 4.412840258321209519e-01, 6.932378511763440665e-01, 8.677698955332883990e-02, 8.385266305400551623e-01, 9.517149251090062378e-02, 2.000940108826652075e-01, 3.524038184773348181e-01, 7.770389705411457903e-01, 7.002706707298379518e-01, 4.092544412523931308e-01, 5.542317570374206692e-01, 9.785704165936102150e-01, 6.343451893724172397e-01, 7.235287452918481854e-02, 8.448943453243903945e-02, 8.360570504755268084e-01, 5.471868636040216893e-01, 2.332237315718696524e-01, 6.381830025196871814e-01, 7.703276758230725996e-01, 2.174664214313434263e-01, 5.283345847640023019e-01, 3.047377723511124903e-01, 2.701401303453470626e-01, 6.110599160720173728e-01, 2.474477916713084813e-01, 8.149187764539147505e-01, 4.333066276699513164e-01, 6.920023884796425717e-01, 8.026803963559562272e-01, 8.029132866195413110e-01, 8.346788691917863545e-01, 5.877627914596008640e-01, 2.811184093264018635e-01, 1.455409105782934365e-02, 5.363825654888506600e-01, 4.755659863515526720e-01, 1.227979144132958084e-01, 6.009235701815622832e-01, 4.463765483835316905e-01, 2.302982143422588335e-01, 3.951996411112380092e-01, 7.966588554072311368e-01, 5.885988221699268719e-01, 3.789361065722820499e-01, 8.330537922641263471e-01, 5.618120257326770783e-01, 2.223502976186889357e-01, 4.303425766363070393e-01, 2.438879999713705615e-02, 1.474063587835006406e-01, 9.169251031108329730e-01, 2.313879734978373792e-01, 4.189427594965973167e-01, 8.454296474754926516e-01, 5.782759895602574973e-01, 7.993864807845474374e-01, 9.313043843096798780e-01, 6.927368844015614480e-01, 3.562054489311636818e-01, 9.841199908321219825e-01, 5.287253443886656967e-01, 9.923309436741726275e-01, 9.095148751629206219e-01, 1.364379906707616774e-01, 6.739439458858732523e-01, 5.113147042194077230e-01, 6.778373379781970076e-01, 4.851958251100651487e-01, 7.430640779504874560e-01, 7.294999742954980659e-01, 5.096453094022365127e-01, 2.421604846035675385e-01, 1.159447805813505344e-01, 6.571300178029819694e-01, 3.966435521607369202e-02, 3.491966780489704769e-01, 8.743070797465536392e-01, 3.100962785257348475e-01, 1.552580126861496101e-01, 2.102833383931475564e-01, 3.773604963435592818e-01, 6.494939492115900381e-02, 1.057553667297462391e-01, 2.837658242837104994e-01, 5.972424886678722178e-01, 7.426250916877112918e-01, 9.753125396869957164e-01, 6.782430876669007791e-01, 3.370078691317905384e-01, 7.638234215480096401e-01, 6.208588402067248824e-01, 3.266546540074458660e-01, 7.941869024916611286e-01, 1.589288950155744173e-01, 9.577506154441296493e-01, 3.433896134998187244e-01, 6.337862800887723580e-01, 5.713803189211704575e-02, 9.548256610068990291e-01, 7.154272198142166417e-01, 3.270174188129304493e-01, 8.903103770274911621e-01, 3.220047099502541532e-01, 6.748566998047269561e-01, 3.635233223524413360e-01, 1.979394297392063906e-01, 6.897614598947862108e-01, 6.218947727270048853e-01, 3.780228189689992524e-01, 6.254906214307273116e-01, 8.683545144152583495e-01, 6.966156112356585162e-01, 1.226226095298959540e-01, 4.680379731625511908e-01, 1.989363869933471196e-01, 4.248950744783387967e-01, 4.833353513602097751e-01, 4.993245845037477815e-01, 5.511080560319290278e-01, 5.955197590537862629e-02, 6.444308683035544494e-01, 5.243458215204084283e-01, 3.212822152311022861e-01, 2.218974432974609168e-01, 3.175606067577972369e-01, 1.780256079451658646e-02, 2.080631828829949681e-01, 3.040029966845613982e-02, 5.695954252417149144e-01, 8.893799660446088939e-02, 3.531122353800814073e-01, 5.955399407700050496e-01, 4.189192853832353070e-01, 9.592015294560112260e-01, 7.614777958464863383e-01, 9.103294425129374035e-02, 3.138376320019181098e-01, 6.060774303530839235e-01, 4.030440510858312314e-02, 4.114667366549004113e-01, 4.299220838952969026e-02, 3.959765379373547112e-01, 6.204418017694233178e-01, 2.346672215390631366e-01, 9.122022667709842603e-01, 2.346134129123318701e-01, 3.143265563952687969e-01, 1.028883054241335887e-01, 2.694156035533720739e-01, 8.629115793132916545e-01, 4.040045803891267884e-01, 5.793125028520661468e-01, 4.949827245145492771e-01, 5.160083786447392518e-01, 5.054416020471169668e-01, 2.266489639654591659e-01, 4.706042897004230618e-01, 8.198516218936201527e-01, 3.785897161854425569e-03, 3.889017982471857926e-01, 3.174144725066126438e-01, 5.342658549191994233e-01, 8.578214391382187054e-02, 4.013619121058013550e-01, 3.019851763839552783e-01, 6.880146602506228559e-01, 9.087503675702168771e-02, 2.847435631241174159e-01, 3.966425895942926605e-01, 5.364580361415621779e-01, 6.258744442641872574e-01, 9.893124907557768744e-01, 2.439260162174605728e-01, 9.291849484102828738e-01, 9.844290389434846578e-01, 1.064486776247759864e-01, 2.335056449380845389e-01, 1.557963707540919729e-01, 1.907356266593682181e-01, 4.490816570547940256e-01, 5.257855633049668409e-01, 3.305379986066374620e-01, 9.283779480625419245e-01, 8.621180448937982854e-01, 1.805001983937149501e-01, 8.732962856216640590e-01, 7.757909124679775170e-02, 4.185594970549237348e-01, 7.317196240890401215e-01, 5.886373824622331830e-01, 3.341073436905224181e-01, 7.960263715563583586e-01, 3.668487100376012777e-01, 6.050488881104311156e-01, 3.090933773032500387e-01, 2.195184125602789305e-01, 9.391237049826677286e-01, 4.657841310074885277e-02, 6.363429890490743812e-01, 1.692496027554039606e-01, 9.275434952923223841e-01, 3.855395197101476601e-01, 5.139447702612689461e-01, 7.200938139396064752e-01, 5.324016657305270517e-01, 2.988519108109876157e-02, 1.020979788034803715e-01, 4.661345777320079486e-01, 1.450922503647505413e-01, 9.089199577991348422e-02, 6.120911222570549759e-01, 5.669477843158268193e-01, 5.333754177992423573e-01, 1.740368899877219044e-01, 1.944332051174927078e-01, 7.742153665695106213e-01, 2.864861446822296598e-01, 1.027507496028820244e-01, 8.027299493160217070e-01, 6.897598836755954865e-01, 6.075545162717609360e-01, 2.491702933851849544e-01, 3.571193222897841024e-01, 7.336424491167278794e-02, 3.019182453743379235e-01, 7.068609482344755390e-01, 4.469311021099432041e-02, 7.588242643206577487e-01, 8.898327280798693506e-01, 3.384352144751263114e-01, 3.014812239947084471e-01, 3.940594535569871271e-01, 8.542764011544397018e-01, 6.860627372903288501e-01, 5.056952382405828228e-01, 2.400450145556173170e-02, 3.992002212137026884e-01, 9.117863469327177617e-01, 7.233402434714778506e-01, 1.276736044399547354e-01, 9.111675593861844336e-01, 7.801821702227215161e-01, 6.085993727518707042e-01, 6.697068806566790211e-02, 9.945635535663932547e-01, 2.335056487136362158e-01, 9.203648281831481315e-01, 8.399551111827685546e-01, 8.759828145519634734e-01, 7.030730431991646379e-01, 9.644213314000150972e-02, 9.617773282567785298e-01, 9.786612624266018967e-01, 3.308238127249252813e-01, 4.676968324021941181e-01, 9.362649202710111584e-01, 7.103380998484513098e-01, 1.208756707393262575e-01, 7.906163493916872342e-01, 8.681484342385166197e-01, 2.168441297911871679e-01, 6.579829989132658374e-01, 8.615423936587744969e-01, 4.536042746628539124e-01, 8.218633326745038437e-01, 6.342930758743067221e-01, 6.138606295942840019e-01, 6.080383522240970784e-01, 9.709452846202741849e-01, 8.970628660970824120e-01, 8.928169512973079813e-01, 3.663401331741598099e-01, 6.551827546255458712e-01, 6.551117840868699860e-01, 5.086103587286043837e-01, 9.126861573495370639e-01, 9.971430059929082823e-01, 7.734880827140133697e-03, 8.924699921549194004e-01, 5.821901809860325905e-01, 5.866106881342928459e-01, 3.493299155861361860e-01, 5.513652447343978524e-01, 8.382984714364638545e-01, 6.581701054763415826e-01, 9.368267907263487793e-01, 8.534522697099097277e-01, 4.164072580877998808e-01, 5.355696392169189135e-01, 6.176017961160341629e-01, 6.869525078649854066e-01, 5.234406445751460524e-01, 8.849726368401324983e-01, 9.170503605386416401e-01, 2.943397856748375951e-01, 5.067872845977660079e-01, 3.874776603290093213e-01, 5.619494053453277793e-02, 9.213732648862793528e-01, 2.816827635929265439e-01, 3.885668996715163637e-03, 2.036807153438914275e-01, 2.794485129066926477e-01, 2.595271783331388193e-01, 4.389805676604422446e-01, 4.113471911930255964e-01, 4.644587313825095931e-01, 2.713692089915168415e-01, 6.227711883545558047e-01, 4.462619257170722387e-01, 1.282856520291573155e-01, 7.089605029683468951e-01, 6.413677370944669276e-01, 6.484110743194628768e-01, 8.152881465251582416e-01, 7.132642054324598302e-01, 3.836016220282065237e-01, 6.454845569574291231e-01, 7.922685214086355732e-01, 5.649520644836149019e-01, 4.742167089361128962e-01, 1.058613255275983461e-01, 9.562094399065421690e-01, 5.160900949575449870e-01, 5.506043391748064453e-01, 2.890997979186253897e-01, 7.571905664439398942e-01, 9.970425960417605982e-01, 6.764346459962447544e-02, 3.738020307116759477e-01, 9.233842349346601530e-01, 3.899474544008245669e-01, 3.260595418418632541e-01, 4.768679732586320608e-01, 7.002880034202971782e-01, 9.439105357029824450e-01, 8.888299093463817302e-01, 1.503167546226929774e-01, 2.219427958723054622e-02, 3.330178053319390319e-01, 4.760572405102869720e-01, 9.191601804870791481e-01, 9.119999807842936734e-01, 5.962675169396260966e-01, 3.017488225834306093e-01, 6.289620668945281601e-01, 8.129779856730380283e-01, 3.493594540366509738e-01, 6.277398805191599651e-01, 6.103546236298127425e-01, 8.249199530356563503e-01, 2.201146219486292965e-01, 5.103029981659060743e-01, 8.317362156074044055e-01, 7.139503873007702062e-01, 5.757022295312363980e-01, 9.299002071217814525e-01, 6.816117880848069355e-01, 2.438540186059267034e-01, 6.208506957905683965e-01, 7.058636397384693284e-01, 9.659024800416008416e-01, 6.698063588390950063e-01, 2.520819027902114762e-01, 4.829082461991834885e-01, 6.686978529735200238e-01, 1.230734226273558080e-01, 3.267943905630729118e-01, 2.370260298560969980e-01, 7.720300790232883514e-01, 7.267550417130429485e-01, 5.535542711273064853e-01, 2.981449722958150472e-01, 4.897095562289385251e-01, 5.116862319843850093e-01, 5.584047861447432037e-01, 3.045395825892350805e-01, 5.330476547145042154e-01, 5.171673856950415038e-01, 2.005049312702016084e-01, 8.241575392256387245e-01, 5.011489140922562591e-01, 7.501973608975543995e-01, 2.517344202184960134e-01, 4.513624768787879438e-01, 7.132805304388517564e-01, 1.933445805061191070e-01, 5.492771335386319453e-01, 3.184054367610774650e-01, 6.073305621972346913e-02, 5.300731097903581546e-01, 2.770444416990988090e-01, 4.450183212496481855e-01, 1.595299085356857161e-01, 7.060947852096383093e-01, 3.729231828757628708e-01, 1.520843781415411322e-01, 3.103433776682493206e-01, 8.422504370350912817e-01, 1.735677439770453578e-01, 1.502812368436657331e-01, 1.072865040150367127e-01, 9.010115760613832681e-01, 8.060817308843187812e-01, 6.447757565696552451e-01, 2.002503562441891316e-01, 7.928800333159112812e-01, 5.772543401010783448e-01, 5.629652096916354376e-01, 1.519397579064403758e-01, 8.015064888587105640e-01, 3.733951155630658714e-01, 1.749685641883569898e-01, 6.876581705342008632e-01, 1.662665838465132440e-01, 2.814229423571694699e-01, 2.169060647742452608e-01, 4.726942159036012260e-03, 9.659172654218347587e-01, 9.304682532142808382e-01, 1.065693268932278032e-01, 1.523163691522511076e-01, 2.292181981372388988e-01, 6.929690450932476375e-01, 2.973831408589676650e-01, 2.935567770901940654e-01, 9.321332982345680307e-01, 1.154494115791112607e-01, 3.523106933227272419e-01, 6.892279347022314262e-01, 4.079985464665220052e-01, 6.596445722285233515e-01, 9.254147758845545635e-01, 6.035266952408476770e-01, 4.507009507085188438e-01, 1.698854079447710552e-01, 8.563507624775613669e-01, 5.254715806466943029e-01, 1.727356481542148270e-01, 1.483851327457891278e-01, 6.906525286925218055e-01, 5.587160956864571648e-02, 8.768276717024274802e-01, 3.747573942547832715e-01, 5.047748352274578076e-01, 3.223378217047642713e-01, 9.595178545497548006e-01, 5.648739776397810886e-01, 8.454083220915065144e-01, 2.191746121217891252e-01, 2.267968686237808174e-01, 3.076897929271599774e-01, 5.790696287644447882e-01, 9.977729340374594802e-01, 4.250608539980929024e-01, 3.751227950893485930e-01, 3.037865183680044656e-01, 4.413960442897772452e-01, 5.249762392047870874e-01, 3.237686865953723903e-01, 8.338319445234442240e-01, 4.912524619177971452e-01, 3.659973877980869372e-01, 9.628294325635567974e-01, 7.095580421224202405e-01, 3.224951451889643272e-01, 3.611883854182671438e-01, 7.178194528143848618e-01, 9.157833198197994351e-01, 6.162490176127002339e-01, 7.017147422346456942e-01, 9.140418420128949561e-01, 4.685211492564362867e-01, 7.124906795722575348e-01, 1.627083576767674247e-02, 4.129828244695549211e-01, 6.186382243840649053e-01, 6.050846524167349250e-01, 6.485107661523408229e-01, 9.966333876250923485e-01, 4.073010861544146266e-01, 1.116607949108121001e-01, 6.120006978965356614e-01, 9.759790459779610350e-01, 5.469716585937699493e-01, 1.562832327875585819e-02, 2.044577614163490265e-01, 3.075963965400614342e-01, 9.983895850610556844e-01, 7.373648537190833352e-01, 4.194120459077781415e-01, 3.550099381073777982e-01, 3.614074853510713115e-01, 7.614234036382758024e-03, 9.311575099531466115e-01, 2.100571600465149513e-01, 2.629607913754760523e-02, 9.524445154712498640e-01, 9.306721616691552290e-01, 3.943082675970204232e-01, 4.938076135189501947e-01, 6.848315670796666366e-01, 8.729074028089430781e-01, 9.111449865568921336e-01, 7.049549468331344215e-01, 6.498383849859051820e-01, 9.593818852754734117e-01, 5.462827274282328061e-01, 4.264102442304338325e-01, 9.083797487811486882e-01, 4.039416196309683627e-01, 1.202013319626241833e-01, 8.831650043130594430e-01, 8.561760139953066284e-01, 4.217593107129529728e-01, 1.572556896501760004e-01, 4.045644952962527130e-01, 2.615416814390094657e-01, 4.628258298379275271e-01, 8.680514440233773055e-01, 9.441449516909178330e-01, 4.849292642076969972e-01, 7.988275953311579913e-01, 7.240468965077068164e-01, 6.041722174615540286e-01, 8.876194706463880202e-01, 4.690571488479945705e-02, 4.333341784733338309e-01, 5.122052974559583582e-02, 9.570769827507359384e-01, 1.007316160095103053e-01, 9.513031194773974297e-01, 2.604725556698950228e-01, 6.631812155223237859e-01, 5.748616126042351837e-01, 7.990070076666649923e-01, 9.360779343217443538e-01, 5.100210999521439525e-01, 4.260672242542502541e-01, 2.382942790740213423e-01, 1.431232672668713013e-01, 9.362802827164991015e-01, 3.917190616990869900e-01, 1.492828818368284183e-01, 9.405274657578842623e-01, 8.383418352292252296e-01, 3.276785521196618478e-01, 2.106847058122262029e-01, 5.706626635860990726e-01, 4.603361759064728553e-01, 3.216635434387911108e-01, 2.982701384522318255e-01, 7.213056567222363435e-01, 7.538658510528464807e-02, 7.599627877535600762e-01, 8.738225517584511381e-01, 8.864989670115546172e-01, 1.452648050165101790e-01, 3.136023499828692329e-01, 4.884704530505951658e-01, 4.665005467793110761e-01, 9.069574706322555135e-01, 8.277251282080377859e-01, 3.070303215270346886e-01, 9.455338123698114883e-01, 8.599416819760531405e-01, 4.277304549653987431e-01, 7.973154309307715071e-01, 4.753584798878233153e-01, 5.812021904543925865e-01, 6.241633410071221189e-01, 7.556787900858751295e-01, 8.091563507165326907e-01, 6.168201201611078766e-02, 9.590551927681405520e-01, 1.740661618963394996e-01, 1.392126687902772719e-01, 2.064592429562537579e-01, 7.027317408394496701e-01, 2.715255623091362147e-01, 5.187785355595343484e-01, 5.519616264244724402e-01, 5.237305509779007773e-01, 3.238225318268577735e-01, 8.049489847245858698e-01, 3.992777386600351308e-01, 2.560572208641246350e-01, 3.018712866205212064e-01, 1.254640423065281618e-01, 4.036634555971036487e-01, 9.894123683581380613e-01, 1.997146305353492135e-02, 6.512030279779028596e-01, 2.652127105470099555e-01, 8.157071174757756227e-01, 5.555987679777256716e-01, 3.522072339521625794e-01, 8.424352447773590935e-01, 2.077771806686579403e-01, 5.056389250285805437e-01, 4.584284233937607200e-01, 6.984297456785478753e-01, 2.811817447686534854e-01, 9.537037783436208560e-01, 4.261324453622053476e-01, 8.545178992732465062e-01, 4.560258758951483138e-01, 2.424654070977408926e-01, 3.421041768323019316e-01, 6.046313008895546348e-01, 1.563299927439448511e-01, 9.706630521759691543e-01, 8.884672595477517421e-01, 2.399760484741912669e-01, 4.026045551396934541e-01, 1.540107575822055042e-01, 8.870322054661031741e-01, 8.431878601651561500e-02, 7.123133164289300323e-01, 1.047843363499971064e-01, 6.854201282674979856e-01, 1.872285352746093715e-02, 8.231391368880204285e-01, 5.154013685541353196e-01, 7.976166533287284421e-01, 3.303214885395593381e-01, 7.555868557704243926e-01, 7.792267948481689244e-01, 5.160697188254221857e-01, 1.802549656569750747e-01, 5.316779327804136424e-01, 3.506551793349888535e-01, 4.963468343055110754e-01, 8.607981972834685136e-01, 6.312287414923563045e-01, 9.659618365034362553e-01, 5.967725412976015997e-01, 2.224864251199645260e-01, 3.764022933677467209e-01, 5.995285703984775116e-01, 4.862837525764107105e-01, 1.373581154730079967e-01, 3.139556931583081245e-01, 7.780492300020604990e-01, 3.484237356615348391e-01, 5.696808192118466563e-01, 3.065256564884617507e-01, 4.686213329814326589e-01, 9.493136227105040126e-01, 5.049530671490655154e-01, 4.235982590217348548e-02, 5.810646000587237348e-01, 9.545198296597097176e-01, 1.309413122305570498e-01, 1.595759951659538045e-01, 9.132111514381442419e-01, 5.942566248021832198e-01, 5.938070695246507880e-01, 2.897891786975402839e-01, 1.080118546583162392e-01, 1.235051731234066558e-01, 4.354235071146199398e-02, 9.873951344523991258e-01, 9.107347880084506464e-01, 8.266258170298945718e-01, 6.563028351915625169e-01, 5.589355319300401970e-01, 5.859831881776781382e-01, 8.731132191464560099e-01, 1.319297630373202079e-01, 5.339692661202266599e-02, 1.842840915837069549e-01, 4.030737880383284955e-01, 5.960953442624552512e-01, 8.895776668905513995e-01, 2.864970536126794087e-01, 4.556524599166872358e-01, 4.520497065692009597e-01, 1.708187951445911679e-01, 8.741150152493277758e-01, 6.907693907972713987e-01, 2.337100769898186881e-01, 8.672215947244279466e-01, 6.434403946785725026e-01, 1.965353083306974891e-01, 9.815268654849017560e-01, 2.868546041482810671e-01, 2.943578389610248536e-01, 9.638132560084312628e-01, 9.952726674666819706e-01, 4.614602367203224365e-01, 1.336962030328150419e-01, 6.652663342708778349e-02, 7.130162529058718945e-01, 8.845811375917052022e-01, 4.333606388701316536e-01, 8.657219100016868563e-01, 3.169695122275877353e-01, 6.434251363613416874e-01, 8.372911603612567255e-01, 1.061149374871086792e-01, 2.381646460767132822e-01, 7.451977123230791866e-01, 4.917926461158282914e-01, 1.833150335771638884e-01, 7.628047227036667266e-01, 6.432805251105626621e-01, 6.384302368249965554e-01, 7.822125847043273073e-01, 4.618412194124035808e-01, 3.431688058873674230e-01, 8.337001442320348676e-01, 5.748981937295397637e-01, 3.662340866569662179e-01, 8.089747536097572356e-01, 6.676548693335431217e-01, 5.215055605907328307e-01, 2.945651368282194982e-01, 5.810657056528866632e-02, 8.308920081638654365e-01, 9.265128822433880140e-01, 2.064042846479745841e-01, 1.505585513862727765e-01, 4.775517072700571353e-01, 2.145540188441590890e-01, 7.217314585405507632e-01, 1.967133777941167949e-01, 6.173882289344323482e-01, 2.771132265034053632e-01, 6.862516928280395501e-01, 9.056507236846051967e-01, 4.701581855600296400e-01, 2.405181506770066591e-01, 7.199710433436851131e-01, 8.060181009446467648e-01, 9.527623360080141879e-01, 3.227519031449355702e-01, 4.012479944855700809e-01, 8.278401324075076451e-01, 5.538138484838417419e-03, 2.786897829465058152e-01, 9.187303643649274987e-01, 7.377728181468294899e-01, 2.151087451281182839e-01, 9.572245322170191972e-01, 3.564971508006689604e-01, 4.086474964103826713e-01, 7.246202791977864877e-01, 8.732717138369441301e-01, 7.593758710180728011e-01, 6.044621876594813425e-01, 2.431749838721635470e-01, 5.029009450478088006e-01, 9.720862044610463215e-01, 7.046934407093995434e-01, 8.574377980866713100e-01, 4.772648512354113470e-02, 9.500809260833423808e-01, 9.204982203453417888e-01, 1.247994107965250815e-01, 9.214269412105279278e-01, 8.244621848981205370e-02, 5.318955535978292515e-01, 7.356923479569322799e-01, 5.632539530547151507e-01, 8.950812479660253951e-01, 7.281066449548811992e-01, 3.360462819029480519e-01, 5.779368849592863011e-01, 9.132386585718079708e-01, 4.282551646164283743e-01, 7.667465114480410682e-01, 9.825529800831563909e-01, 1.145570389428648000e-01, 6.976438354946717935e-01, 9.770663652607544103e-01, 5.008867379342902826e-01, 7.630654308082986115e-02, 5.812759535957433554e-01, 4.367915244561642457e-02, 3.114199306118458632e-01, 9.442729623185361354e-02, 9.212410502338302942e-01, 7.752951760051360885e-01, 2.964779706707761364e-01, 5.306145299844627905e-01, 4.179911441684128759e-01, 7.565672826611927748e-01, 6.712646178121284279e-01, 2.037267285696548191e-01, 3.152875953897825712e-01, 5.405135479517924058e-01, 1.561434248871575170e-01, 1.044168659820033374e-01, 2.161509784437001813e-01, 2.487145999235946814e-01, 7.179609169572600536e-01, 4.883822935444895319e-01, 7.593142108844109783e-01, 3.544096988304930584e-01, 3.038862534270604931e-01, 2.237758780552170645e-01, 1.127623245352678966e-01, 6.000914866078395082e-01, 9.434223148715649154e-01, 1.425900912127173459e-01, 6.913653771906669299e-03, 3.091366960652376927e-01, 2.452562535949979194e-01, 2.936970032303873879e-01, 9.491023458676710323e-02, 5.545166122137594744e-01, 4.344862458728430132e-01, 3.419426432478155364e-01, 1.340633719016647296e-01, 7.546605907235756083e-01, 2.594748195542664337e-01, 8.234678187957994444e-01, 3.419460982099590263e-01, 6.940458103154156788e-01, 2.026711996759019974e-01, 9.668763242548781278e-01, 7.237893474600273214e-01, 9.745889366084850014e-01, 9.432722194956493222e-01, 6.382146562429255043e-01, 5.769146315224097377e-01, 7.332553377234508896e-02, 7.194643916846308329e-01, 1.952689918180761097e-01, 5.187693458382871547e-01, 8.365389549629718147e-01, 6.944348868848657652e-01, 5.676259626256681123e-01, 4.938756789318469176e-01, 1.797990066224891548e-01, 9.572971743984640680e-01, 8.528619759379068022e-01, 8.392788276620896104e-01, 3.239672334976305690e-01, 7.766640648935426716e-01, 3.811940328044993720e-02, 4.774228639531302165e-01, 7.680673788773020316e-01, 2.506376815686736648e-01, 1.972019270348054354e-01, 9.923228201043290397e-01, 7.294736069411321688e-01, 1.296386562865683989e-01, 9.080433606240537747e-01, 4.885298444211753632e-01, 2.411618511482899463e-01, 6.635433120815434349e-02, 9.260688452455471120e-01, 6.514312358251977964e-01, 2.277503551967343665e-01, 4.478778454273786291e-01, 8.673279598701738591e-01, 1.729898107272555829e-01, 4.002393315323609091e-01, 5.604910990387629299e-01, 8.704663334376435690e-01, 7.033799595293821483e-01, 3.692344268749876424e-01, 6.189544271840771161e-01, 6.679249893992268428e-01, 5.069800116886649111e-01, 8.628387656117503246e-01, 1.991914290776719554e-01, 1.280542384408933920e-01, 8.330543267857681844e-02, 4.329898246901783820e-01, 5.769006575486418376e-01, 1.097928732866947921e-01, 6.429636821964701543e-02, 8.832904617097376843e-01, 8.465039607379800657e-01, 3.054170603422057262e-01, 2.643934636361625068e-02, 2.920593768055090855e-01, 6.929804041187000996e-01, 9.990857620957099838e-01, 2.776825060813515877e-01, 7.235403806998523812e-01, 3.844515131074473513e-01, 9.863395151024219043e-01, 6.742241551167474922e-01, 3.917860848857230849e-01, 9.886463862458202412e-01, 5.846211214665978373e-01, 2.656935511928884552e-01, 6.913543738515277592e-01, 8.455987596227879655e-01, 8.969543148705123592e-01, 5.826644667693971907e-02, 7.119241038203804051e-01, 6.743830946227413747e-01, 9.090804261265423847e-01, 2.682663757151603212e-01, 5.061963769766365528e-01, 3.246763947001107264e-01, 5.821193964386126574e-01, 6.004644868599487983e-01, 1.039974017774737830e-01, 1.888061843434574449e-01, 2.930979065113825666e-02, 6.962810926452944749e-01, 6.555548295505588818e-01, 1.133021172624736929e-02, 4.657314929768333611e-01, 9.395816411453954409e-01, 2.613194484186942557e-01, 9.900672470159842253e-02, 2.625033406983742074e-02, 7.850691385494997787e-01, 3.538884131423755686e-01, 1.439363973062189050e-01, 5.788984339301331827e-01, 3.410313954690881166e-01, 7.005426018194861326e-01, 3.723774161317924269e-01, 8.505690568257189277e-01, 1.153169709048380842e-01, 8.239073790914597240e-02, 9.124903619958621981e-01, 7.426457196064755184e-01, 6.854291774428014072e-01, 5.628176166567624428e-01, 9.274304968240233704e-02, 3.984868959828283819e-01, 9.760484316931931081e-01, 5.510690021908521974e-01, 1.493049024829644633e-01, 6.540312447657873340e-01, 3.336120439168661078e-01, 5.112788184469526653e-01, 1.562954450090702219e-01, 9.030866701346561554e-01, 6.246280940948197857e-01, 9.948534216566781718e-02, 2.225725351190507850e-01, 1.961273918999532351e-01, 6.505852259311580843e-01, 1.157414046317311734e-01, 1.316734924009674845e-01, 7.812776389462133819e-01, 3.501743885165753412e-01, 7.280007152356855471e-01, 7.353641217423545484e-04, 7.906580847579876004e-01, 8.441686596889265148e-01, 1.242375551602437761e-01, 6.116608297469883215e-01, 2.206188625595958686e-01, 3.649599265361651579e-01, 4.297693451659956310e-01, 2.515150506473456948e-01, 5.673167717766320894e-01, 2.303150544964928381e-01, 8.745979814707125488e-01, 2.894733552557974821e-01, 1.722778518376575363e-01, 3.223260337970644263e-01, 2.095844159914650451e-02, 3.434656010364069978e-01, 4.255102001037239234e-01, 2.720413132699722181e-01, 3.564551532645968690e-01, 9.631124715485746002e-01, 5.650188888498606232e-01, 4.250013377868795406e-01, 6.827514589879385420e-01, 8.393636799021976236e-01, 7.632921576056088675e-01, 2.344774080878431199e-02, 5.531604346902194713e-01, 3.665112832275805310e-01, 2.732976411009928053e-01, 2.798567178540646849e-01, 1.870139536253655477e-01, 9.830403616015118140e-02, 8.697935094765617547e-01, 6.948022027491150832e-01, 1.080998087120849382e-01, 6.229465713462878362e-02, 5.106195771848562881e-01, 5.279688985381807836e-02, 1.535836143825606258e-02, 9.356183770442798586e-01, 9.162569380836090849e-01, 3.652965982196094141e-01, 7.753797076032151736e-01, 2.407641076374970324e-01, 4.468210853032886232e-01, 6.943311191158020312e-01, 5.864052631309415453e-01, 6.260330145446965089e-01, 1.638077219430038589e-01, 6.483917128079057235e-02, 1.109532325679045833e-01, 1.536881607753212420e-01, 8.230365787423318258e-01, 5.278143998354307698e-01, 5.769155968106380872e-01, 8.840769384769086026e-01, 8.365592892889969212e-01, 9.864446698628129839e-01, 4.869195214348209788e-02, 5.093802101881629296e-01, 1.375178879459758863e-01, 9.045366966035208733e-01, 6.920845021769608252e-01, 4.479201235068571152e-01, 6.405398471037263564e-01, 7.279202345217885770e-03, 6.662716470702642058e-01, 6.073473904331792017e-01, 8.426442386318863109e-01, 4.443398107368707328e-01, 5.108669177605772438e-01, 7.629271885965450695e-01, 8.475765110164392713e-01, 3.227348686620136187e-01, 4.255487134296863649e-01, 7.732617875353510195e-01, 4.115846586748104774e-01, 2.234278158235771805e-01, 2.936704045266931296e-01, 2.350333318168583152e-01, 5.601437909349612498e-01, 6.674598803045703743e-01, 9.252260670840979362e-01, 1.215479334369834463e-02, 2.326694987046501462e-01, 5.649032799992158571e-01, 3.601063482308965447e-01, 5.976766427802893134e-01, 2.103502249758226195e-01, 7.165365901342862776e-01, 3.115518486707939960e-01, 8.935688339098183386e-01, 9.148635484652793970e-01, 8.262387866348064325e-02, 2.714118364664819261e-01, 9.502882953841521596e-01, 5.847953059843132850e-01, 6.774042351073064801e-03, 2.282335772584903610e-01, 3.682075302260168215e-03, 7.151002965883681561e-01, 6.156629411790633943e-01, 7.297816592534466240e-01, 6.108876845361235208e-01, 7.822936298791250964e-01, 4.717324484575236010e-02, 8.204370627430811469e-01, 8.563820931292804861e-01, 7.413048652502277625e-01, 8.919200138696929958e-01, 3.240824042246709391e-01, 5.241664796390144154e-02, 6.561290251796874085e-01, 9.896731483471203628e-02, 9.978295954540101764e-01, 1.574749722703112365e-01, 2.761885727260351420e-01, 9.307105014544264643e-01, 8.568771098377563344e-01, 2.878140673402989624e-01, 4.942007803184259029e-01, 8.038634938648307748e-02, 8.708370193724524269e-03, 5.980634919759575396e-01, 4.597041522738145591e-01, 6.582625594132310853e-01, 8.554603874406891961e-01, 7.296434704767092994e-01, 5.746063703094470565e-01, 7.443540460280979598e-01, 9.557149354071783343e-01, 8.438262444002321283e-01, 5.059596049845890287e-01, 3.568335392143500151e-01, 7.570706143826131385e-01, 5.258395574567684694e-01, 6.824454360687832732e-01, 8.953891093300208048e-01, 1.949763828762016982e-01, 2.404395890807030367e-01, 9.851889277556098445e-01, 4.696971854901695886e-01, 8.718370355082951662e-01, 2.761529049298300786e-01, 5.258266893027441213e-03, 4.174485021522578720e-01, 3.420726883171887334e-01, 6.793981945852267668e-01, 3.874497241748456888e-01, 3.058736967760001257e-01, 6.790172502797739984e-01, 5.599187179023727978e-01, 8.081925223272005965e-02, 5.590144454236025684e-01, 4.687652253407457725e-01, 7.873080418603292108e-01, 9.907118644589407719e-01, 6.946438159016182778e-01, 2.208987341526629788e-01, 6.759009197251540924e-01, 2.584890192444143711e-02, 3.585542121140197214e-01, 6.793667668742056631e-02, 5.621524291045304489e-01, 4.064569645872552206e-01, 8.567080545131156022e-01, 3.464692769437155428e-01, 2.570813508080543319e-01, 9.046616297749385804e-01, 2.849018795790618785e-01, 2.338816883413840364e-01, 8.899061513850209382e-01, 1.724597814070858715e-01, 3.906032234953584203e-01, 9.628194058183624504e-01, 4.778178440684071049e-01, 8.944832735367790333e-01, 9.496714453432518743e-01, 3.141346719988331038e-01, 6.987090201448163951e-01, 6.120801420359565093e-01, 9.816104829847729363e-01, 7.098485880678521986e-02, 4.246660728568684151e-01, 6.240526995643987940e-01, 8.983972024446397198e-01, 8.353053847616085381e-01, 5.271342159025039775e-01, 4.144365516199995936e-01, 8.393378047175011902e-01, 1.516430220012423558e-01, 9.097878662798917215e-01, 9.871815090489171052e-01, 2.918498228262668068e-02, 7.238741158011829935e-01, 1.324534715276140528e-01, 3.230960823599020593e-01, 8.544954480463821112e-01, 2.640176084305668747e-01, 4.877822296884285480e-01, 1.306083523872334506e-01, 7.612779674217773351e-01, 8.585191301396792873e-01, 1.031142127827026772e-01, 2.506872931279556863e-02, 2.035840353285804094e-01, 1.072343454186470424e-01, 7.093452121160217505e-01, 4.481526999137466216e-01, 6.371521852088450621e-02, 9.161451486597460558e-01, 8.434198477366151581e-01, 7.324024682574864498e-01, 4.064626919482821066e-01, 7.531358607940810135e-01, 4.581210972713962715e-01, 7.127433940082955610e-01, 8.984664813956823037e-01, 6.178551265769685052e-01, 8.540987233044390337e-01, 2.000402567647446284e-01, 3.532166253306168180e-01, 4.279830236096869855e-01, 4.405107982081609558e-02, 1.529120373152026424e-01, 4.621390544853212212e-01, 5.770508554506406096e-01, 5.723565045077186886e-01, 4.020437855279720279e-02, 6.483324956920034632e-01, 1.132221518425205187e-01, 5.151631178850791803e-01, 8.272339473233756291e-01, 7.777401866019321153e-01, 1.161175818920947298e-03, 6.755858399540473069e-01, 9.145134219089551264e-01, 5.966009675844330395e-01, 8.363421015721173024e-02, 3.260127473548438126e-01, 3.737545735457542539e-01, 9.308075848560338761e-01, 1.734918377238486159e-02, 1.586761125299212261e-01, 4.063512803446369115e-01, 8.659825287241087466e-01, 3.194972938499757720e-01, 9.114188692812241754e-01, 3.108105625577596287e-01, 8.444232542116369977e-02, 6.307499442078525753e-01, 2.250137043379489554e-01, 3.550143817611411401e-01, 7.403657807354558917e-01, 5.867799725572135916e-01, 5.259812189607225852e-01, 6.986819142241579295e-01, 1.409150618271625688e-01, 1.000529434958582486e-01, 5.715189259789401621e-01, 1.415164557515507793e-01, 1.613203548782239372e-01, 4.203914470640691681e-01, 8.440547220439653664e-01, 6.190177175203068760e-01, 3.161387324057847170e-01, 7.319302158681618709e-01, 4.442441755156875116e-01, 7.715169353516272699e-02, 5.418679347787724865e-01, 2.807511078155787154e-01, 5.654452037727811797e-01, 5.595296632798217873e-01, 6.583876174685260318e-01, 7.093079349214270746e-01, 3.312292735966412272e-01, 9.993329052266433088e-01, 9.295609382606054849e-01, 6.688557382002332519e-01, 7.623851864759927377e-01, 1.790126309456543940e-01, 3.625491482422949496e-01, 7.748670539307950245e-01, 9.754229300621403143e-01, 7.429074176960491771e-01, 7.902008364984047795e-02, 8.077181255143778271e-01, 5.307248807170968918e-01, 4.747751774293958449e-01, 3.693639671343686981e-01, 3.922841111358298383e-01, 9.170667309944868784e-01, 1.291352476637359914e-01, 6.692198316199431396e-01, 4.225731921970709015e-01, 6.142038330833794468e-01, 8.635927856285237070e-01, 8.350835204191242589e-01, 8.542708636458565818e-01, 6.190938705622938132e-01, 4.734422070769945812e-01, 3.370604372778471247e-01, 4.864159509839254270e-01, 7.765377419159161798e-01, 3.122768017153841336e-01, 9.030321968299138691e-01, 9.397251105887627354e-01, 9.004544854604540349e-01, 9.044976281011349872e-01, 2.383378152043360773e-02, 3.308908663044384246e-01, 5.260480497686002010e-01, 1.601289926050186718e-02, 7.784530999535484996e-01, 7.586803445637573251e-01, 6.681924578102530488e-01, 2.277285047030581655e-01, 3.110846116479573098e-01, 6.539042666516288183e-01, 7.588791547406926741e-01, 4.767289880685824932e-01, 6.486872819225364406e-01, 2.534161828992038124e-01, 3.991575429919130835e-01, 7.094845773655293897e-01, 4.287120621983001728e-02, 4.995588607732169284e-01, 5.517568671851510453e-01, 1.769733049709910355e-01, 6.696438904923478486e-01, 5.347965910718495142e-01, 2.548456311135486874e-01, 7.280933491042176353e-01, 7.714022654945520419e-01, 3.837460389797918148e-01, 9.410951615851533003e-02, 6.866553010614698804e-01, 1.589607560800142538e-01, 5.342312867615928162e-01, 5.838973647086457275e-01, 1.212486518565385474e-01, 7.464643798261820784e-01, 4.934027957141502441e-01, 6.232860946149023640e-01, 3.924048902672012673e-01, 8.502185668760977588e-01, 2.024332723375831672e-02, 4.016766288132513907e-01, 1.082400077611458955e-02, 7.381276148423119299e-01, 5.440456087113038075e-01, 9.113932642850219867e-02, 1.635431401166738408e-01, 3.655954138943067200e-01, 1.478428485579574847e-02, 1.809638940521656348e-03, 1.908960512233616180e-01, 8.676294702236609924e-01, 6.733878803455037865e-01, 7.976896259870922545e-01, 7.461168758417349167e-01, 6.761323288471591253e-01, 6.734598039481556331e-01, 8.995331527831730567e-02, 8.614446956673408318e-01, 4.930179929791701499e-01, 1.631674461070468374e-01, 7.491114301507680873e-01, 3.433914946661476009e-01, 9.796107416683321606e-03, 9.681418325368721378e-01, 9.460624537029637127e-01, 1.760768941961123324e-01, 6.426234922206691680e-01, 4.279670029220841720e-01, 3.863245841844006323e-01, 9.093637288750425762e-01, 3.656060630438328074e-01, 9.643777351289435362e-01, 9.953299929353272013e-01, 8.832311643984837035e-01, 1.256900787776256134e-01, 3.854791351651083442e-01, 1.480433710442485840e-02, 1.486761670606257246e-01, 1.578469260183111567e-01, 4.093427435091959721e-01, 2.316802934591556951e-01, 7.168193721133288010e-01, 4.437171044186581370e-01, 2.974366367089137375e-01, 2.528221308637507714e-01, 4.359331862549327141e-01, 1.701971427195435663e-02, 5.912563824765478815e-01, 5.075195390185174293e-01, 3.921967716156820605e-01, 4.914666650169366990e-01, 8.401003976207217505e-01, 1.388452287537933483e-02, 2.192916526749586481e-01, 1.053622578407100302e-01, 3.047599529375469296e-01, 5.870749179725252009e-01, 3.974467863783853749e-01, 6.582025438605959566e-02, 5.625079528477946456e-01, 1.993381053416084236e-01, 9.283192952622920657e-01, 3.237792277105715905e-02, 2.405819024511454129e-01, 9.783502396437160353e-01, 8.514953451185650612e-01, 9.133288123379329493e-01, 4.226491749221630845e-01, 7.508372482331117093e-01, 6.018106042734115979e-01, 8.045207592660829077e-01, 2.543703238571814462e-01, 6.870478798132000353e-01, 1.076537672695444987e-02, 1.817438807335235162e-01, 6.227066635158394758e-01, 6.049536801916385320e-01, 8.328551026117987366e-01, 1.752527404927471943e-01, 4.274371498387097845e-01, 3.353135278614896575e-01, 7.696796619887228408e-01, 7.775394711433983863e-01, 2.906713221891985000e-01, 7.230723522597394259e-01, 7.120902008483595003e-01, 7.928988395630138797e-01, 7.112958548170438267e-01, 4.270507401312040874e-01, 2.555181684735811087e-01, 6.418160556102895375e-01, 7.637701030027885807e-01, 1.520280507439146778e-01, 2.206828453170549542e-01, 7.529147881850991597e-01, 5.777066535566656169e-01, 3.866116212860291612e-01, 6.656735737274163123e-01, 8.604306377643159420e-01, 8.244273884615924697e-01, 7.265811558326497055e-01, 7.580999098402789738e-01, 8.356574711653081966e-01, 3.272994259430394015e-01, 4.321226442910589549e-01, 6.018816329181344571e-01, 8.348015600290538130e-01, 3.326178288263396121e-01, 8.973121709817634128e-01, 8.076197902579251853e-01, 8.160355893661207505e-01, 7.259483268776076859e-01, 1.648834285880296513e-01, 2.279471679602573797e-01, 8.286732672171257530e-01, 9.207809087254898994e-01, 9.561064205671401250e-01, 9.394042485492727357e-01, 8.725527595777878842e-01, 5.727136131734231889e-02, 1.429126690836472480e-01, 5.929324963379996039e-01, 6.480066312580673449e-01, 2.045631088863708591e-01, 3.054072290944912383e-03, 3.294749481680524922e-02, 8.383176608762926696e-01, 9.882849719520917509e-01, 4.395166391982342491e-01, 2.917352039034038502e-01, 5.615716648413400236e-01, 7.970625178755856854e-01, 7.702502760856845265e-01, 1.887756368449279021e-01, 9.672064361625848372e-01, 4.717456580162491808e-01, 7.653885646190712322e-01, 3.792025551173713177e-02, 4.701064527705177132e-01, 1.657679643712521300e-01, 1.550057089988724490e-01, 8.377891301888098496e-01, 2.472558490417412630e-02, 6.717328198172282105e-01, 2.775988210856693006e-01, 8.143834121861147635e-01, 9.889378442623786292e-01, 3.036675520545804585e-01, 2.563544058393658620e-01, 4.233396363249699035e-01, 9.573891451120730700e-02, 1.819120115139728211e-01, 6.416952104987641015e-01, 1.657578493258995700e-01, 1.606343524788519384e-01, 6.351327698542595934e-01, 3.323141712824805721e-02, 6.966937920257847416e-01, 4.442997552401667383e-01, 6.781380614419217912e-01, 6.913844581857239158e-01, 7.639105923341731330e-01, 9.627308392635923751e-01, 2.182247728410025844e-01, 4.487393275876880999e-02, 6.555037570288502202e-02, 3.628381077203545746e-01, 9.239778181864960471e-01, 1.508335724244781184e-01, 6.494556312358682471e-01, 7.542640617944946779e-01, 7.173243575980011721e-01, 5.095896595408483387e-01, 3.355313713708771295e-01, 3.493232483681166789e-01, 7.276784891963512525e-01, 4.301483382677223632e-01, 7.260836627756563910e-01, 2.818751591872050710e-01, 7.449301053664595385e-01, 1.498168440659225775e-01, 4.081288837990865725e-01, 8.237523546227448756e-01, 7.840861790095607908e-01, 4.170260330750575339e-01, 8.538483217123179481e-01, 4.456873600096149524e-01, 9.475689177173103328e-01, 4.863701504150662047e-01, 2.840354917930933976e-01, 1.518321200250633829e-01, 5.734715275070743079e-01, 3.063282444302362073e-02, 5.395663947326924115e-01, 8.642575164939553245e-01, 4.009827773624742853e-01, 6.105748525933544224e-01, 6.675570110822649506e-01, 5.215271841704987033e-01, 9.938602050804712373e-02, 7.863257949985297257e-01, 2.322933757951187728e-01, 7.188740148822206910e-01, 6.769623621473101760e-02, 5.175744732943852178e-01, 5.390776102688178417e-01, 8.857285108090308112e-01, 7.155580620147946602e-01, 6.006654294842665998e-01, 6.901830112274133233e-01, 7.463993857148972788e-01, 1.972206922496816672e-01, 9.156374891382119963e-02, 4.306343399969455588e-01, 5.090842412908707093e-01, 9.420330187012445622e-01, 9.531698739361168515e-01, 3.681575280834619157e-01, 1.400172383672466658e-01, 1.520492549248313452e-01, 4.107733378836297966e-01, 9.935988989607218436e-01, 2.298520943659022320e-01, 3.262031516241735152e-01, 1.840072305364185423e-01, 2.518463466055473887e-01, 8.801912281243979841e-01, 3.168500587896799781e-01, 1.996916433620022913e-01, 9.511429003249248781e-01, 5.851043575145339348e-01, 8.337847421790988145e-01, 7.670618510501456822e-01, 5.605846480775735774e-01, 8.572372079900877351e-01, 5.859165119118597831e-01, 3.795345754414852779e-02, 9.932660918924760551e-01, 7.050011135271485596e-01, 7.237953424483706266e-01, 3.638161976500406403e-01, 7.589662939835323252e-01, 6.844962530906688603e-01, 2.419094373614292248e-01, 9.310496389670035178e-02, 8.877730006621239456e-01, 1.713988496546667850e-01, 9.388012956798006403e-01, 1.158455893447559309e-01, 2.113394049758540449e-01, 6.829676338414435444e-01, 5.619479155981984553e-01, 6.441633113647402542e-01, 2.185418215641619227e-02, 8.523140806172139206e-01, 4.101963548771903056e-02, 3.520797325561372815e-01, 9.309442329242335612e-01, 7.893772419583738875e-01, 4.445745837082926144e-01, 8.190517872335978389e-01, 8.140541073992426657e-01, 8.830863084432487575e-01, 1.154745343037177387e-02, 8.538978643055433748e-02, 5.632022048453936280e-01, 1.734759364794932202e-01, 5.279950771913570762e-01, 7.092380931248888354e-01, 7.960340266189093184e-01, 2.544025809104827340e-01, 6.046173619266614896e-01, 2.770424960651887702e-02, 7.911122060531864397e-01, 8.871310137618957370e-01, 2.523660946778085168e-01, 4.688246059774762164e-01, 1.473306639930497819e-01, 8.659387102305001749e-01, 4.257254683607666346e-01, 5.590655763236331843e-01, 3.428417136580917401e-01, 4.359591917265208671e-01, 4.198412504011839186e-01, 4.947835954085129107e-01, 2.344626798632614140e-01, 1.787437927254167946e-01, 5.901706347529143137e-01, 7.766200993974116118e-01, 3.621064663509999115e-01, 5.071887673287793774e-01, 5.969780191513129886e-01, 6.924111378070331446e-02, 1.926044155897550236e-01, 9.557658857179978096e-01, 8.661094797824763214e-01, 3.179632530182860961e-01, 6.951514686988722325e-01, 1.589682250594877944e-01, 1.274159798514150066e-01, 7.031583665320866039e-02, 1.565675406353444210e-01, 6.228662696707386592e-01, 6.523415151424145214e-03, 8.329455805137608859e-02, 4.063655903536693703e-01, 2.442222616441125649e-01, 2.709073014202394436e-01, 5.570414173725424245e-01, 4.146305854626628623e-02, 8.051180031322348052e-01, 6.229580278570606700e-01, 9.757801508555676850e-01, 2.328388487898002124e-01, 9.199964919662227958e-01, 3.498201499585862906e-01, 8.071841679993795315e-01, 6.095773055585215205e-01, 9.347550117607122955e-02, 4.696235530803941627e-01, 1.801849397563046462e-01, 7.457911697905843240e-02, 7.139359189701963149e-02, 8.827936789051802347e-01, 1.602733551151275526e-01, 9.681932848921603885e-02, 1.354914036700192725e-01, 6.287844823923048887e-01, 3.847020738012137397e-01, 6.074397006922190867e-01, 5.372610675895059806e-01, 3.537175470982735215e-01, 9.005395588019124986e-01, 7.989564539922979769e-01, 8.760510364543109274e-01, 1.551358233603216674e-01, 3.880998310597445489e-01, 6.179498835245006427e-01, 9.431825040995575060e-01, 3.638652141658319517e-01, 2.430734262559373082e-01, 7.276672420659879847e-01, 8.190345448277102092e-01, 1.809530994312965047e-01, 2.189478290516240211e-01, 3.185935834100190878e-01, 4.604519258174021301e-01, 3.533243866159015423e-01, 8.125710100869729668e-01, 2.164294765543895993e-01, 4.102196057723064282e-01, 2.350006546899915116e-01, 3.349346240303473499e-01, 6.279718973812657701e-02, 6.418488475510756297e-01, 4.036703897784720274e-01, 6.240032490938667298e-01, 3.184182557999871155e-01, 3.489449839431472133e-01, 5.614808933131063551e-01, 3.060906597877512403e-01, 3.977294290564049595e-01, 2.559737315909791922e-01, 6.641016660334903010e-01, 5.466525506690654845e-01, 2.818715070742446871e-01, 3.793867944022241701e-01, 1.472471192853374300e-01, 8.322759186264222508e-01, 3.212970921070013586e-01, 6.987434760737763761e-02, 7.004207408388796186e-01, 3.556335248476183430e-01, 6.499015701846679871e-01, 7.788062203160917019e-01, 1.739359998199875301e-01, 5.795527217747109550e-01, 8.814689395178257891e-01, 5.454955100180611804e-01, 7.476353146766964164e-01, 1.509599372932604600e-01, 1.046880406816896869e-01, 5.162271723946170177e-01, 6.939854147727209099e-01, 1.065868450306061560e-01, 2.917246755975297923e-01, 7.560965711395892797e-01, 6.967398891490331203e-02, 5.954254415012515400e-01, 4.383538554791417408e-01, 4.367879939195425942e-01, 1.794228592606097183e-01, 8.551970197275509111e-01, 5.857701864463715768e-01, 8.674215417910305925e-01, 4.603242444230073449e-01, 2.879981093228072830e-01, 5.987044089828302829e-01, 8.900421802555812112e-02, 9.575807427820687279e-01, 8.903696296589787007e-01, 4.026475774248131079e-01, 8.035506636445449713e-01, 7.445500028681384386e-01, 2.599756665274288170e-01, 6.552958800824696395e-01, 1.609369374391363960e-01, 4.516858442948235020e-01, 9.094608195651068261e-01, 1.509504270728447839e-01, 7.893444768464559225e-01, 7.587832319034134576e-01, 3.476202274187086827e-01, 2.224141147858055279e-01, 8.858122571413018509e-01, 4.194474555145557559e-01, 9.048865594427477621e-01, 2.070141849554496261e-01, 6.687992473723040066e-01, 8.377180094786877973e-01, 5.808765509778304192e-01, 5.375966733151497090e-01, 6.351865617124933250e-01, 8.354115725794476477e-01, 3.898252936607842778e-01, 4.157669772788894491e-01, 8.331446835310833965e-01, 7.169663891069960604e-01, 9.078417656338907404e-01, 2.539930210469513727e-01, 5.199422682249444927e-01, 7.053871253223074067e-01, 7.943775783081945541e-01, 7.992229175204238478e-01, 6.701676322793757024e-01, 6.669233485257171079e-01, 5.235089936560463064e-01, 3.973268658830297895e-01, 6.843738967675756513e-01, 1.919386898377517248e-01, 1.565516815670270623e-01, 7.187949824428894186e-01, 7.594137689950368753e-01, 9.382908783209131798e-03, 1.470841165121433702e-01, 7.852263940609068849e-01, 5.248081435564595498e-01, 7.815389682453777187e-01, 4.485123943623606779e-01, 6.487467547283017888e-01, 7.316785343799488972e-01, 8.378194032896594257e-01, 1.108931735841487687e-01, 7.144089694128713530e-01, 9.261546372778987068e-01, 7.958363354076464224e-01, 8.680517276763829448e-01, 7.381281590612236432e-01, 8.249756624046320486e-01, 3.987402447127907368e-01, 8.984352650913346450e-01, 8.501896197247034159e-01, 1.686914183515399457e-01, 2.540078578035095958e-01, 6.345657453150034266e-01, 2.189606800851708335e-01, 9.298872452769648689e-01, 5.757275076404021474e-01, 5.907109274832735846e-01, 9.728755870069417666e-01, 2.563540223464811363e-01, 7.276734045560975250e-01, 9.797467638272780999e-01, 6.354421210145085874e-01, 5.646680324447137522e-01, 6.038648370142178923e-01, 5.481049660227199638e-01, 8.029473577939874041e-01, 9.475751177749839327e-01, 3.713976734156747561e-01, 5.177981487348889411e-01, 9.539815029583273986e-01, 7.524325613884759179e-01, 4.775179252994674051e-02, 9.809114999101192778e-01, 8.703792216143709792e-01, 6.883831025948692339e-01, 6.087023070170459738e-01, 3.882625521706075528e-02, 9.348110602988269902e-01, 7.350397090835156244e-02, 3.270333493662634372e-01, 5.663959494911433579e-01, 4.993852699524576888e-01, 7.520490918588299545e-01, 5.404465334980937952e-01, 4.622668507573838848e-01, 4.477252246382232292e-01, 1.996776393414067263e-01, 8.147439083651965008e-01, 4.910372908194869934e-01, 2.180309621534124442e-01, 6.329757039223739279e-02, 7.026620105749852296e-01, 6.065638431002629005e-01, 2.564674269552030816e-01, 7.602934592184722173e-02, 8.256623082953717940e-01, 5.739007344865858506e-01, 8.951471137165183389e-01, 1.614363414885998660e-01, 7.940173064484951082e-01, 5.348998295726391516e-01, 5.420200607969987150e-01, 5.623964014047110327e-01, 5.513721175631182136e-01, 6.993331503452804299e-01, 2.797964925377450229e-01, 4.819924396880576611e-01, 5.328000979575132634e-01, 3.634902732206043985e-01, 9.111589899632575040e-01, 2.061865732139753493e-01, 9.629621349937195207e-01, 2.380869955312538977e-01, 3.882134010618720765e-02, 6.323845185226405485e-01, 4.902592060390168482e-01, 7.391858596906010215e-01, 5.373333420503475510e-01, 2.750396103402373282e-01, 1.129864252464401683e-02, 3.359745641515736736e-01, 5.249741712847243447e-01, 9.893089443141712680e-01, 5.766411509265214619e-01, 5.695572000742420427e-01, 8.557896230598938114e-02, 3.270557369506120193e-01, 1.545885578896152857e-01, 9.053169795629032457e-01, 9.837465328543671950e-01, 5.752163328921157115e-01, 6.541375768527537549e-01, 7.714062233165422944e-01, 5.783484659646072057e-01, 9.458164356645917259e-01, 9.402116151460078453e-02, 3.559288341283545765e-01, 9.399638006438592042e-01, 3.437430984274870149e-01, 2.541625450331749247e-01, 1.365190901172289861e-01, 5.850699976389642787e-01, 6.386525661388815500e-01, 2.236759666127601520e-01, 3.736882312518133853e-01, 7.304535978047467237e-01, 9.049100855110157049e-01, 5.546741688139498194e-01, 2.092508218988968216e-01, 3.515286237838040617e-01, 1.165005173751505890e-01, 6.513326424741127108e-01, 8.282771052711678239e-01, 5.082839296393882877e-01, 2.501863873967081209e-01, 5.884679257829161791e-01, 6.976156897889443931e-01, 9.873040535710645438e-01, 5.541524788945534352e-01, 9.818619046101740855e-01, 4.027119374246937999e-01, 9.213768936343315064e-01, 7.489026116677026668e-01, 2.394195412914147392e-01, 6.493043282498527358e-01, 3.279767733780740158e-01, 9.725207100586791276e-01, 9.590820731508867825e-01, 1.312987068324224064e-02, 7.467944148736291865e-01, 6.129281341513498349e-01, 7.262718407126477205e-01, 2.991501142603613869e-02, 9.340255655046350025e-01, 6.525498626525320089e-01, 1.917962056343425203e-01, 9.411166159356149086e-01, 3.753527586133456606e-01, 9.174040497337653255e-01, 6.910027878558292098e-03, 2.964633898216874619e-01, 1.460299926637145529e-01, 4.707295494138751257e-01, 8.369534488881877898e-01, 1.882729484822359689e-01, 7.067502130463723109e-01, 3.008204176360788074e-01, 5.891376889052823973e-01, 2.741057542911395223e-02, 2.708965296853453886e-01, 2.285496644180111669e-01, 9.655077435435792388e-02, 2.695637887308456326e-01, 9.615538607322735576e-01, 5.254436376785598384e-01, 5.596944570890207693e-01, 3.598203016561464795e-01, 8.900600005866479147e-01, 3.256827317646387998e-01, 1.680311491975141625e-01, 9.012196974864474797e-01, 6.742915826686828318e-01, 1.753179909953068161e-01, 4.157577364129403930e-01, 2.839764185794815821e-01, 2.695406363699525687e-01, 8.853954223496428577e-01, 7.205412226488584482e-01, 2.421951112425213271e-01, 3.861627494761589174e-01, 6.881602514829245898e-01, 9.867090338657185100e-01, 7.025078706089369351e-01, 1.246540930129161201e-01, 8.882522296414058216e-01, 8.098307946376472888e-01, 5.902046403178380363e-01, 8.502185113802465111e-01, 7.133402323848991866e-01, 7.425799916462227923e-01, 7.876485730063340629e-01, 2.971211926426963745e-01, 2.522291136185146332e-01, 8.697107484313879588e-01, 4.438911322279876503e-01, 1.658400303700517942e-01, 5.533949486412660379e-01, 5.436872544447326483e-01, 8.595512377503323753e-01, 6.763670251565944147e-01, 9.803139225702606208e-02, 8.079540488067650239e-01, 6.671003354160928156e-01, 6.699227388710881081e-01, 5.089951194256958633e-01, 6.402100165031282542e-02, 7.379317545337673590e-01, 6.441486012194889144e-01, 9.130742790781757323e-01, 2.171587208168228034e-01, 2.206264488743975294e-01, 4.318331756517254649e-01, 3.522254844784619143e-01, 4.548293891070895878e-01, 1.127483119366239350e-01, 8.099745861951822556e-01, 2.994435434226157544e-01, 1.489389400961376175e-01, 8.256512554598202103e-01, 3.941385253962477186e-01, 2.013614668330699908e-01, 2.481630912299489511e-01, 5.287676473534718147e-01, 4.210195155581170079e-01, 5.582694521709843927e-02, 7.608694358954373183e-01, 3.879064928875315399e-01, 4.685102547112411919e-01, 7.760442142387483644e-01, 8.035461083560038187e-01, 8.691193273357384896e-01, 3.413162920605601336e-01, 5.633582199226456755e-01, 2.359490138047240226e-01, 4.149054782641453665e-01, 7.522091934160928250e-01, 5.273662980616378171e-03, 3.494812593481401164e-01, 2.008010314861553014e-01, 2.592949991165880985e-01, 9.429146955980729702e-03, 9.610078478122477952e-01, 9.777885151026305399e-01, 5.523916844252771963e-01, 4.489806339539901270e-01, 2.466130464109739934e-02, 2.086970340485408970e-01, 6.589035269700835307e-02, 7.882121803885697719e-01, 2.762423804841656616e-01, 4.745119769396439757e-01, 6.481570883754413925e-01, 4.237133861747196528e-01, 4.141839891140018937e-01, 3.149405041183565013e-01, 8.570568081588085807e-01, 1.062561902550975129e-01, 7.179777555262526478e-01, 1.504295234751526211e-01, 5.720352934776368192e-01, 8.111743267546369651e-01, 1.424238628774440740e-01, 6.301624530312217864e-02, 5.092376811245671320e-01, 1.288827875635539522e-01, 5.688459000441673519e-01, 9.199197943536894240e-01, 9.170139659450142755e-01, 1.079301829345979437e-02, 7.444171479576107420e-02, 4.433281689490355948e-01, 8.011873736326463602e-01, 2.359113559043364006e-01, 5.445800090608193811e-01, 9.441730408691236809e-01, 2.640707100674255514e-02, 6.043237982494055194e-01, 1.934670506529735379e-01, 5.216493710480814006e-01, 4.581215853276693339e-01, 1.291407416245009265e-01, 5.281027428947678848e-01, 6.253706148377827789e-01, 9.380818388882414816e-01, 2.543906069984332441e-01, 2.925532362365231287e-01, 3.326953007329951362e-01, 2.132853176377302873e-02, 3.273957839016276017e-01, 4.972872956717316884e-01, 3.898136874139574437e-01, 2.787900389857398964e-01, 8.891550002733302760e-01, 3.523519352785542402e-01, 3.321670509087880085e-01, 2.748144941991839119e-01, 5.962151817260950143e-02, 3.356171888341613063e-01, 2.834366094057104157e-01, 9.975010456055234398e-01, 7.300094465474157301e-01, 4.616606166901121577e-01, 7.041749607738908567e-01, 8.627649669224396467e-01, 9.123772748809626520e-01, 3.635312979459503491e-01, 9.749331019303241197e-01, 1.171419976720422529e-01, 3.764669867075187693e-01, 9.036568649674175946e-01, 9.324170886176647022e-01, 9.943699971392759851e-01, 2.593555255990174224e-01, 1.475028814137377131e-01, 9.183934191909209899e-02, 3.608003448817446168e-01, 3.510279489794813634e-01, 3.810545417745618835e-01, 9.435710350570812865e-01, 2.757226722045875156e-01, 5.120201041182486090e-01, 5.075865439644118293e-01, 9.407059526804431027e-01, 2.132115933183920398e-01, 4.668477988422757852e-01, 3.238755369503621973e-01, 6.782832200003350298e-01, 4.856685462006142817e-01, 1.711239839781602753e-02, 5.241979484688755742e-01, 4.783259164353027559e-01, 8.332406843192059487e-01, 9.389365598930148327e-01, 1.837180012359482806e-01, 3.634430523412193192e-01, 6.649190074292317121e-01, 1.892368518670029254e-01, 3.461417807105888755e-01, 7.352697326012068713e-01, 3.338492126557242590e-01, 4.480891921147145407e-01, 4.550682340768019141e-01, 2.947557166173119803e-01, 2.021731023640230551e-01, 4.740383277621943447e-01, 8.744044534731284513e-01, 5.757653031079104089e-01, 2.658456760134421670e-01, 3.764184675975057459e-01, 5.495461998656773206e-01, 1.540371524650999656e-02, 7.109115007485147242e-01, 9.417174502738945296e-02, 2.527186032507777735e-02, 9.257879620996151138e-01, 9.091419840883595560e-01, 5.206695152727164322e-01, 9.319250447655277325e-01, 4.749581426003927215e-02, 5.700669165970214669e-01, 1.198690257238331780e-01, 3.394361124612069736e-01, 5.655552822852525363e-01, 4.570471410005638724e-01, 8.781605912689557369e-01, 8.993233261803115219e-01, 4.331228325094984566e-01, 3.631189069927822644e-01, 2.958839990016687294e-01, 3.027467469735456440e-02, 7.987490730613141521e-01, 8.497587313885233140e-01, 8.354664053968430260e-01, 2.683422072561928995e-01, 8.420203004965391980e-01, 9.301095501084234440e-01, 9.298401216482319320e-01, 3.102764959085723140e-01, 9.384851805770511035e-01, 5.857765897142006573e-01, 9.478842386770921502e-01, 2.289732577928858537e-01, 1.932212506589347512e-01, 8.272076546693178656e-02, 3.815671902172945718e-01, 3.089314475904487711e-01, 6.319722496259065903e-01, 6.348234209060158451e-01, 3.527595113184174846e-01, 1.349261541911858653e-01, 4.850768110390062948e-01, 2.985149015055647004e-01, 6.253558756872796831e-01, 4.708237109233948670e-01, 6.338278263076861929e-01, 6.595526137045373272e-01, 4.868165101518169280e-01, 3.040863940155329459e-01, 3.606540771844263804e-01, 8.772526347462994423e-01, 5.710780340005676692e-01, 2.197703842632298399e-01, 1.924784634809515449e-01, 7.439586744622402881e-01, 6.159596033773759860e-01, 4.588835615289403869e-01, 7.640819872243828081e-01, 4.348186000983900179e-01, 4.902327816048826503e-01, 1.829579224147198924e-01, 6.118113621910781230e-03, 6.112951420377232825e-01, 5.188674841136742266e-01, 2.255813936856450874e-01, 4.449295085981708198e-02, 5.557673214100883330e-01, 3.106170197139496714e-01, 1.810263458727030539e-01, 5.658968556015362417e-01, 1.192716992915119206e-01, 5.117843198909527436e-01, 1.927870699504446173e-01, 3.317091202560649155e-01, 3.525721178945195322e-01, 3.994491756673783089e-01, 9.697924147817124085e-01, 8.682833234422303592e-01, 3.720260489314464736e-01, 8.349048179847301521e-01, 8.072110970946518860e-01, 4.670455439537773978e-01, 8.085518166280150076e-01, 6.827513832610369038e-01, 4.830096398866799423e-01, 5.708301650549049144e-01, 8.785513726311318106e-01, 3.400944186533847585e-02, 5.490458790135359646e-01, 8.184708837418153138e-02, 9.890455573247736165e-02, 4.297390932075315639e-01, 6.849493425303537775e-01, 7.661766635301987538e-01, 6.714505117671263346e-01, 5.360779207939543323e-01, 2.403716957477366467e-01, 3.462786328113810486e-01, 9.352927316216064213e-01, 8.840439742736914130e-01, 8.045912022073729020e-01, 8.303032071375309187e-01, 6.555755193933868741e-01, 9.086750397933608669e-02, 4.908192492828982179e-01, 1.722233894896368356e-01, 8.765752056209169529e-01, 4.184606195703569065e-01, 7.478423019973058361e-01, 6.297397067849221930e-01, 9.639825993751819366e-01, 9.315798408852327128e-01, 4.614758956915208654e-01, 6.808705835986469390e-01, 7.408221761046001053e-01, 7.903389327788518104e-01, 2.964149954254765573e-01, 8.412157340458802368e-01, 9.469883532991076880e-01, 6.591062601950248290e-01, 4.771428173815600027e-01, 5.002596408960231500e-01, 3.288411999395746133e-02, 1.235878424524196745e-01, 5.999679226901648565e-01, 9.484532249946941995e-01, 5.484832982619782804e-01, 3.192156016907178318e-01, 8.914263239298737540e-01, 9.083640558992719383e-01, 8.286769212865124912e-01, 2.670539624974946902e-01, 1.221302528244773977e-01, 4.236042509131768274e-01, 8.470164736504420810e-01, 3.853603585755368544e-01, 3.499275489339655487e-01, 5.492798360157322701e-01, 3.241980361734089211e-01, 9.732748880049397755e-01, 5.425998299795063984e-01, 1.650426463863219340e-02, 8.791471696256247803e-01, 5.518217329331704946e-01, 9.917901463683558294e-01, 4.952416108586106258e-01, 3.983334655309929695e-01, 9.906783023050641512e-01, 8.843370484891289740e-01, 6.370783827021205825e-01, 1.283379652654220715e-01, 8.170895349543347841e-01, 2.828814940920230669e-01, 9.371135575160985942e-01, 4.262512032393495076e-01, 9.278171365286979055e-01, 3.003218695800026206e-01, 7.861476232402672126e-01, 7.300115083649737491e-01, 6.776212499998637284e-01, 8.814527831149986392e-01, 4.225177252340330675e-02, 8.531829563811121897e-01, 3.248422583702817446e-02, 3.053942045727419119e-01, 2.633237241684564522e-01, 5.945609184589837476e-02, 2.903425187540066565e-02, 7.807770706090285673e-01, 3.975295332049713082e-01, 6.637235143356209899e-02, 1.912962757243809320e-01, 3.837715044093547578e-01, 7.346054273176435556e-01, 3.418184890970765721e-01, 9.512943900040111700e-01, 4.347141799344962920e-01, 8.118799018059945638e-01, 6.037448856908709249e-01, 6.568736512455639609e-01, 9.814632418340493158e-01, 7.261240027964381838e-01, 7.297012475000158593e-01, 9.144839189170200777e-01, 7.303790236436262795e-01, 7.345560441722158718e-01, 4.605657494471965263e-01, 6.547625030554877767e-01, 8.002198916624851943e-01, 5.242671253591324465e-01, 1.311516899042246831e-01, 4.504482398990017900e-01, 1.382868337859797236e-01, 9.779155798248098108e-01, 1.961075811330510454e-01, 4.786102302633110095e-01, 4.389400701338270205e-01, 4.397790132673691232e-01, 3.040549102472671628e-01, 6.422503457126395310e-02, 4.818700942656686248e-01, 3.142752305497861776e-01, 7.475086704538386195e-01, 6.457948172494593075e-01, 3.031901275086476000e-01, 9.447639309870744517e-01, 6.915849249856774739e-01, 8.640436707187638676e-01, 2.942896363304872143e-01, 1.808839250398711629e-01, 7.533983698154314568e-02, 4.948995658448813173e-01, 3.763362687350235714e-02, 6.851744246942014227e-01, 7.993362108413889500e-01, 8.883096939962485949e-01, 5.264823050766194168e-01, 1.229672708471785531e-01, 8.062320203824552278e-01, 5.951598249648235722e-02, 1.317004839405182259e-01, 1.764673363252904428e-02, 4.889029127917755013e-01, 8.891201647138622377e-01, 8.971150742593865246e-01, 5.233455045199605360e-01, 6.760759388527863845e-01, 8.475098594965044807e-01, 6.722558177550038705e-01, 6.793249635424600807e-01, 2.411287675985179790e-01, 9.650727158334304612e-02, 8.969446764146750128e-01, 1.071406549573231670e-01, 1.445828547008279896e-01, 7.830654038879856227e-01, 7.774473280626313931e-01, 6.606535565955853895e-02, 1.220071265350843870e-01, 1.649345585579772289e-01, 6.104359277552139362e-01, 4.524275874427385880e-03, 7.447872726660107467e-01, 4.633444614020066910e-01, 1.009450119957129577e-01, 2.755411811167167158e-01, 5.420395909549574620e-01, 4.063349662817787311e-01, 5.391968201832729735e-01, 1.057273132212336181e-01, 9.290207775987344707e-01, 7.142182825246098377e-01, 5.350871705718280857e-01, 7.029131798388353891e-01, 9.358203220566894132e-01, 1.940448894685433551e-02, 8.000707619554685568e-01, 8.866706947870784949e-01, 2.479504576790772241e-01, 1.876488403753894252e-01, 1.438215260982277643e-01, 5.471163314380148579e-01, 4.185317110428465881e-03, 8.468450847085345901e-01, 2.673850419274949597e-01, 2.870995685856542190e-01, 2.971628203050424855e-02, 7.336354060190738435e-01, 1.914475035493647115e-01, 5.121391853587016207e-01, 8.309606814624271864e-01, 9.870859834622747186e-01, 7.889040415840461451e-01, 6.017097891241015573e-01, 7.663333195218724470e-03, 4.628438349140178154e-01, 7.602582215974303947e-01, 4.852624524096086911e-01, 6.882587580556372986e-01, 1.517734810873622164e-01, 4.185565789219440336e-01, 3.670917292760541017e-01, 1.928474061768140763e-02, 3.290611615399638978e-01, 1.332877376796795799e-01, 7.057502427911088727e-02, 8.972119673576106624e-02, 7.783692886761174323e-01, 7.258096800206220722e-01, 5.200476381808277759e-01, 2.748158587579904166e-01, 5.963497404644660937e-01, 4.850574989992631481e-01, 7.363626035425410721e-02, 3.388712547067929681e-01, 6.493099520739753494e-01, 8.419801738495381604e-01, 3.327490879473614660e-01, 3.239807264240748275e-01, 6.445852301429506603e-01, 7.389803849084043419e-01, 7.708639925538138815e-01, 6.817305918485759841e-01, 7.176206737015330961e-02, 6.441950281730299821e-01, 1.184199345200418474e-01, 3.435746845992601051e-01, 9.295968088614688929e-01, 6.329697727117837847e-01, 8.166398320490615426e-01, 4.987906228002642606e-01, 1.572753278865484938e-01, 4.015142569531644501e-01, 3.506240250884551379e-01, 7.378988280098377484e-01, 4.585666549116405172e-02, 1.935568138097512048e-01, 2.810196667177174423e-01, 4.356070081483090495e-01, 8.336475338535079826e-01, 2.020758202297260331e-01, 2.414452155173818504e-01, 8.641456447855039302e-01, 6.140106176242610125e-02, 9.344470684649063275e-01, 1.147321518475877961e-01, 7.229167506347145000e-02, 8.877409348972187253e-03, 5.656416006568284471e-01, 7.262779632666687135e-01, 6.180480838015299794e-01, 3.005181511886708678e-01, 8.258888684030446514e-02, 6.517255599689778522e-01, 4.247038337086143922e-02, 7.475944273543629892e-01, 3.207717333798528747e-01, 6.154345737438222663e-01, 2.841131152264941839e-02, 4.317632587781087827e-01, 7.187688957860023375e-01, 3.824283856673580950e-01, 7.828658896737590300e-01, 9.661070699248690552e-01, 3.292603037904786589e-01, 2.442454548629465760e-01, 8.171738318758864361e-01, 2.493362547231232906e-01, 3.881731689677903052e-02, 9.678263043607210347e-01, 5.087429366858200463e-01, 8.808141195231447007e-01, 7.065531407934970698e-01, 7.689453835021438366e-02, 2.059523964259315360e-02, 9.621125795942357950e-01, 1.028133618144400074e-02, 9.115858575846624845e-04, 2.027840365019397684e-01, 1.539757930531906495e-02, 7.723894069045339483e-01, 6.924810627307824706e-01, 8.565923110188602418e-01, 7.667774351888337891e-01, 7.932633321622895028e-02, 5.951895292979828556e-01, 5.104338560572322381e-01, 8.864197831222317969e-01, 9.833594262172421496e-01, 3.596428857758441344e-01, 4.681695784590848008e-01, 4.656737770823431988e-01, 1.717803834195724688e-01, 6.149581185564033659e-01, 2.934622565770579339e-01, 6.424792113229057522e-01, 8.827445373899414083e-01, 1.083867106382119770e-02, 7.305944781436114477e-01, 4.440431317879707795e-01, 1.022245375189809180e-01, 2.841525467207433597e-01, 5.491168337274159733e-02, 1.075489169044658438e-01, 6.568398331826845737e-01, 9.085777540391409834e-01, 9.997209180213727509e-01, 9.371003945512770272e-01, 4.968495824711821052e-01, 4.038811282021623206e-01, 1.578283261496691847e-01, 3.442305904114334458e-02, 8.670153750701936612e-01, 3.776166954886032157e-01, 7.464380262403417232e-01, 3.695463151265135915e-01, 4.480394113690603364e-01, 9.237576209463524979e-01, 2.742304415561933051e-01, 9.630984011094340103e-01, 5.687622993763383761e-01, 4.167356363883358839e-01, 5.112655852532307366e-01, 2.879685532701776740e-01, 1.074620578014937600e-01, 8.168678117412346562e-02, 5.232236317937476455e-01, 9.935834459716316180e-01, 9.143808635296014620e-01, 9.586896933695956413e-01, 4.571743817191867842e-01, 9.772089831371935098e-01, 8.949270367014943162e-01, 8.629989686193200171e-01, 2.017063960611630846e-01, 3.137571405751197751e-01, 6.435415484228208527e-01, 7.502394260448272956e-01, 6.555431727583506119e-01, 2.181277290174282180e-01, 9.306196552543787304e-01, 5.840148151350773587e-01, 6.423462394247269058e-01, 6.062159710724368544e-01, 9.461029375617292514e-01, 2.473758740979538351e-01, 9.784779993034304901e-01, 7.003026525592161156e-02, 9.540164301557980675e-01, 4.239015091756519471e-01, 3.311694534239110199e-01, 2.653594438781504139e-01, 8.022318968769254210e-02, 2.224014562902494330e-01, 7.447710556738600385e-01, 6.979573089148176646e-01, 8.824990668968756280e-01, 4.882711371379733212e-01, 1.584551132127310358e-01, 3.791734652333946798e-01, 2.447421360653875277e-01, 3.523016623767808442e-01, 1.143501272881114611e-01, 9.452457337270893101e-01, 9.505852032594920287e-01, 9.628973661781639048e-01, 7.773575718834407899e-01, 5.299839482664786550e-01, 6.602034125840727796e-01, 7.154009175180534585e-01, 1.379979226923621488e-02, 6.365630060689086989e-01, 6.634448585328008019e-02, 7.386176963929694805e-01, 4.278651205614798503e-01, 3.938048523599859685e-01, 4.987789380789325877e-01, 1.847979346904543296e-01, 5.020809431256122446e-01, 8.934788531340904782e-01, 8.969360550627854256e-02, 1.858515762005565619e-01, 1.081533530956461098e-01, 9.440489671238886382e-01, 1.808461756277396359e-01, 3.404576974897773334e-01, 8.066032303997076047e-01, 5.215130859150780840e-02, 2.579048895909999972e-01, 6.966145247771582394e-02, 8.533121723696229788e-01, 9.711829001453753385e-01, 8.094537967117211297e-01, 7.652672380400294960e-01, 8.787602336464590547e-01, 3.981260641793176736e-01, 3.531895400818125808e-01, 3.963446061904446482e-01, 3.137633236925976288e-01, 5.278899909953469471e-01, 8.264768523669706601e-01, 8.543851577327078450e-01, 8.983656957674361898e-01, 2.250927460274877723e-01, 4.934347126948828155e-01, 3.451962629417262146e-02, 1.799791331523489246e-01, 6.656555256970109191e-02, 6.629364741803097649e-01, 5.990126581796159089e-01, 6.693550925580586952e-01, 5.192798552653333788e-01, 8.964828763112238086e-01, 3.058314615150499183e-01, 1.402451198753755235e-01, 5.992901709774340890e-01, 5.133764149367648910e-01, 9.340504284236104127e-01, 5.441151502047423261e-01, 6.850984147003827962e-01, 6.900568962373044846e-01, 3.049263474878406432e-01, 3.166322024830348081e-01, 5.542153465848167482e-01, 3.138719806722345407e-01, 7.237707085594016210e-01, 9.629170107292813752e-01, 9.142407238729820529e-01, 7.884598434247591658e-02, 1.739759827376431700e-01, 3.587966556850941680e-01, 5.513844849184702523e-01, 7.462034205976203483e-01, 1.943669011542559222e-02, 3.471389019102700257e-01, 9.221854479809363236e-02, 3.567732902722862698e-01, 9.903085910881281873e-01, 7.151932829263700775e-01, 1.989379693290272214e-02, 1.090514350104980906e-01, 8.762190660350220872e-01, 3.276902394667107199e-01, 9.478527824530110779e-01, 8.634261937940972409e-01, 2.567522919323612651e-01, 1.730357146811519198e-01, 1.517003731541916034e-01, 1.509631651749231418e-01, 8.448269971251148869e-01, 3.802935338440172064e-02, 4.476379728363695243e-01, 3.664631533859467605e-01, 1.820528748336426306e-01, 4.650693359410504324e-02, 2.568610376884917362e-02, 6.396702718765301388e-01, 7.105568738071542378e-02, 8.692744494670157085e-01, 4.561806582023059803e-02, 4.326876971556546381e-01, 9.122938876209504278e-01, 6.501135700867353151e-01, 2.895049875547868190e-01, 8.008251861096671309e-01, 1.791797969033779303e-01, 5.507797642006506678e-01, 7.783826917880662943e-01, 2.055881401648552154e-01, 8.737632362685846532e-01, 2.349548384438565965e-03, 5.212515087545434994e-02, 7.818647822001045800e-01, 4.461826491707990283e-02, 3.317847956567401280e-01, 9.578174659334492969e-01, 4.852441665896320422e-01, 7.988254251511277548e-01, 2.985721207383992826e-01, 7.372033527829631172e-01, 3.253357695958081774e-01, 4.024124145873488878e-01, 9.525760653536869960e-01, 4.541388230790203706e-01, 7.205093718314635742e-01, 1.405535163696696455e-01, 6.833542934602661045e-01, 6.349112803826383322e-01, 6.369003651616662598e-01, 7.014438058395748854e-01, 1.344554157484971757e-01, 9.891256533874919210e-01, 5.848754268386484600e-01, 7.157840839334809191e-01, 3.781817359648658727e-01, 2.975409652561451512e-01, 5.475607940150701847e-01, 9.188734124222329713e-01, 5.812075512542221878e-01, 4.486584699073938032e-02, 4.489641009897759050e-01, 4.352776275050045385e-01, 2.457241871637041719e-01, 8.593795557851146016e-01, 3.892306507782673508e-01, 2.452491556271125805e-01, 1.740552204117343793e-01, 3.284208246758897332e-01, 8.922055155013550731e-01, 9.242242193384271332e-01, 7.021737568415786779e-02, 8.551171073750176710e-01, 6.659221404717252657e-01, 5.666730069965520977e-01, 4.622588701269347289e-01, 2.529620932235991382e-01, 7.422277488099235931e-01, 2.758788187664800162e-01, 2.220484190961936333e-01, 2.820803383657477514e-01, 6.774237813192973690e-03, 8.804540936339221302e-01, 5.800297276674115654e-01, 4.407116622949494578e-01, 5.650901649066697452e-01, 8.282398446059712205e-01, 1.296844788418448080e-01, 4.143627418611601776e-01, 8.888282774157389987e-01, 1.113429405178517212e-01, 2.313768312468255373e-01, 4.078345806777897709e-01, 3.744754025738916692e-01, 3.554474873538846502e-01, 2.521027541641108691e-02, 1.722931933217166645e-01, 9.208416659869871346e-01, 7.637184460018269228e-01, 2.786483461108333892e-01, 5.241216211396133584e-01, 3.172438028077767536e-01, 2.933040557862715003e-01, 7.510888928668424391e-01, 1.118590079857927216e-01, 6.219831753918435568e-01, 3.076543587348425368e-01, 8.450591806739423673e-01, 7.161005304224928869e-01, 9.567359191086938219e-01, 9.837184668721026259e-01, 3.685784765784219652e-01, 2.230149383553229614e-01, 9.463167515544105290e-01, 6.371093084751231483e-01, 7.408029883799841508e-01, 4.838783802609034623e-01, 6.791361534042593684e-01, 2.602122646862932154e-01, 5.580137261823279182e-01, 8.889106258642642810e-01, 8.007791503404506628e-01, 2.051294634837577124e-01, 1.941587345966633293e-01, 8.811124230366595977e-01, 9.213295475625714603e-01, 4.779585122091712934e-01, 7.368577198086064817e-01, 8.165971319351118529e-01, 8.353477741813883917e-01, 8.852526068740879106e-01, 3.378242537667484058e-01, 7.704313661447836914e-02, 8.576955113235015249e-01, 5.238879745896425355e-01, 7.440145419482993017e-01, 6.926512386268478538e-01, 4.080579905472986879e-01, 6.089364033005156829e-01, 9.986648382026610538e-01, 3.945395573087170371e-01, 3.213905607754512506e-01, 4.759340076345714987e-01, 9.409281752889165906e-01, 4.472453715887368952e-01, 7.230449560899595562e-01, 1.714637700445443835e-01, 6.583991729029043949e-01, 8.846447126161274266e-01, 5.480949693892015612e-03, 4.384376208389624274e-01, 8.015485752713317202e-01, 5.485411847352751336e-01, 8.248944390987470454e-01, 9.100603485935386816e-01, 1.637099581346023180e-01, 9.799132416223251818e-01, 5.641930900646643238e-02, 4.620046442707729240e-01, 4.928250566509271291e-01, 9.947406415504142507e-02, 5.898543340127900825e-01, 1.527994706147681736e-01, 9.712330011565961652e-01, 2.205070845174975647e-01, 6.228760168052595025e-01, 5.659496019183999360e-01, 3.138993641714956095e-01, 1.487582013636664924e-01, 6.758962024190958706e-01, 1.642692379347428788e-01, 8.761661833404518207e-01, 7.788397868042771233e-01, 8.862835146044990564e-01, 9.713462114169084671e-01, 5.866666105751037336e-02, 2.033878029347940264e-01, 7.034456511016645708e-01, 1.562191564857006443e-01, 5.960478673332618715e-01, 5.765618752532858382e-01, 2.493843506362052875e-01, 4.520648408328667434e-01, 5.141530349724564575e-01, 4.677493858780059632e-01, 6.898903435313863408e-01, 6.085602162387524494e-01, 8.757876259381898454e-02, 5.325109408769193031e-01, 6.616571739221540627e-01, 8.216241281447114186e-01, 3.603551211653872599e-01, 2.884039302705673213e-01, 2.295013917162032901e-01, 2.046907351952403642e-01, 2.119357290828325080e-01, 7.042928474860371546e-01, 6.729497431161839405e-01, 8.505884554621689908e-01, 8.453718222349287936e-01, 2.095113339221445492e-01, 5.216083658907871845e-02, 2.011096017220503906e-01, 8.610735082949736441e-01, 9.290791316500068842e-01, 9.268589859166849187e-01, 1.334658409541369661e-01, 4.377465498177219860e-01, 7.256555588148489999e-01, 5.542706582439452800e-01, 4.326332383948082727e-01, 5.119378577872737424e-01, 7.428098444184716431e-01, 9.489181363572815053e-01, 1.638466694793244693e-01, 9.386636729593003103e-01, 7.516626929767882270e-01, 7.030943802857446689e-01, 8.265495757133619614e-01, 2.287408398940784515e-01, 6.635986095436924304e-01, 7.079571058313319787e-01, 2.115994357486541411e-01, 4.369612409936813879e-01, 4.293529783749450157e-02, 3.637239034117553116e-01, 5.937194278529810409e-01, 1.501052857432778609e-01, 9.140277318785881011e-01, 9.615163807916025096e-01, 1.499920842026301049e-01, 8.314364341608170283e-01, 4.700248650765525005e-01, 4.670105082761322884e-02, 7.699590178244024585e-01, 7.499384137106116510e-01, 8.180853960620232401e-01, 3.193433491238988342e-01, 8.627504868217267253e-01, 8.668480776401722432e-01, 6.917277354849967752e-01, 8.913545222472706309e-01, 6.683923747609734622e-01, 5.367398887577777833e-01, 8.819857550222084397e-01, 8.961225402947040619e-01, 4.906135530093147512e-02, 9.158735349886617527e-01, 7.035147843843149174e-01, 1.774816807510052330e-01, 6.629107245052995312e-01, 4.808340649079747564e-01, 8.263222389390330047e-01, 6.692196440365659749e-01, 3.489294891815363231e-01, 1.580512780296942088e-01, 1.614665836411566247e-01, 1.875283117194435079e-01, 9.920242914599759487e-01, 3.113401223686045882e-01, 6.560009088066109939e-01, 4.234008019533952449e-01, 5.106954738335193200e-01, 1.227417913567155211e-01, 7.259040451213948364e-01, 4.988714514465304450e-01, 5.286785857854329196e-01, 1.142236341732298377e-01, 7.314014709197362851e-01, 5.562302201113961120e-02, 7.247758483930837325e-01, 1.236014281602905163e-01, 2.626547968558765045e-01, 6.809534590576025170e-01, 3.777230925688461471e-02, 6.027135150493406757e-01, 6.679838398837365521e-01, 6.045397088588881918e-01, 3.051473105912204109e-01, 5.915675473754986591e-01, 8.939441147376763208e-01, 2.422487593182940380e-01, 3.248481643646349282e-01, 8.988925453471351412e-01, 1.106054259911566778e-01, 3.548333670635810955e-01, 6.041252679002262482e-01, 7.943025158701431110e-01, 4.973731733252236276e-01, 5.900712203601503614e-01, 5.764327782160129088e-01, 1.347606865759558847e-01, 1.412131725816157812e-01, 5.942855996668324758e-01, 6.038389344634293998e-01, 6.158370156201002921e-01, 2.250735815432418074e-01, 9.136926398185639675e-01, 6.173998999490983852e-01, 4.735377108449246308e-01, 4.065512138089608790e-02, 3.367515101800103161e-02, 1.745855454862536016e-01, 8.121167252735274067e-01, 1.545712372427943126e-02, 6.876973621201065701e-01, 3.906792727429757028e-01, 5.431923746574388590e-01, 7.142310096647672690e-01, 4.998728813431699280e-01, 3.089584123674044003e-01, 2.585752376728899793e-01, 3.007459896313129932e-01, 8.450875247281680602e-01, 9.212933566560943532e-03, 2.249543765419369235e-01, 6.842635342551212085e-01, 1.931586777805292809e-01, 8.341232319335770695e-01, 6.385889461425664493e-02, 2.019944438205566462e-01, 8.453108396542401426e-01, 1.174043462845799496e-02, 6.869413573773230919e-02, 3.125862440868150127e-01, 9.115804562558216251e-01, 8.161999076652995400e-02, 9.160843600192744018e-01, 6.218761136967372316e-01, 7.384924524043473548e-01, 2.834263898988925723e-01, 9.707949606867790626e-01, 2.339526218325128568e-02, 6.059251464775589069e-01, 3.426350388222799137e-01, 8.572669883986092643e-01, 7.370613050185327308e-01, 7.982308778927363901e-01, 8.373358518400580985e-01, 8.771209721530777159e-01, 6.163749403361442614e-01, 1.521186414278652976e-01, 6.498078768811970107e-01, 5.379603863700270772e-01, 9.556803819758205032e-01, 4.877795277614055403e-01, 9.993597423551086045e-01, 3.855733277772928624e-01, 1.655406398570297144e-01, 8.044163318797648010e-01, 2.565261267212062823e-01, 6.068282630942318789e-01, 6.616945071971691572e-01, 4.632785611771645939e-01, 7.144432290868552027e-02, 2.830622989348102192e-01, 2.675747976569424758e-01, 8.501800028062981296e-01, 2.097502280490920468e-01, 7.647040081001378331e-01, 7.221061742253364057e-01, 6.766168921329208663e-01, 7.862373451737719732e-01, 2.043647730823699993e-01, 4.619358805333189100e-01, 8.169200167558872128e-01, 7.443630553456356269e-01, 9.546140255146111642e-01, 2.297961561281001638e-02, 6.754728524266967460e-01, 3.406192579388203079e-01, 8.071559490963106098e-01, 4.004529160687815836e-01, 1.528004574068773658e-01, 7.855120738767724653e-01, 5.279453361020548519e-01, 8.323242072306784589e-01, 7.154777807728047723e-01, 6.108894318196813611e-01, 7.697263112650236661e-01, 4.933747740680741178e-01, 4.924244287161168021e-01, 1.896402925899753622e-01, 9.500808720017996090e-02, 7.936839287094491491e-01, 9.073675140440206066e-01, 1.582384666224430358e-01, 6.778652233102631097e-01, 4.184142898074943440e-01, 6.043454037261296596e-01, 3.484993264630197873e-01, 9.051323911134346867e-01, 1.389812195049834609e-01, 1.633500002669128481e-01, 5.848891227192345443e-01, 3.629841909041692238e-01, 9.567288731642153987e-02, 2.383686006727888107e-01, 9.622069802147470430e-01, 1.509059863820697844e-01, 1.420351958030175721e-01, 4.708534484173340640e-01, 5.017851405338611404e-01, 1.452542870615506632e-01, 7.224386527937657343e-01, 3.366002380985752551e-01, 2.482428068412468602e-01, 9.217870809151347267e-01, 8.740875140964796675e-01, 7.488502945140188549e-01, 3.441956384737325236e-01, 6.984453706703518394e-01, 6.872079933491078707e-01, 8.459574090128731960e-01, 7.238839811718097428e-01, 1.626322639425246963e-01, 5.798791955057412961e-01, 6.065225714988473626e-01, 4.582788814205873695e-01, 9.428120982935890293e-01, 8.174869545404634952e-01, 7.006410018147088969e-01, 5.611745867562500933e-01, 7.807592629472662749e-01, 6.282203815549392001e-01, 6.444682173813469639e-01, 7.949283732367691258e-01, 1.376975740764267986e-01, 2.375249767845551974e-01, 2.001495902326208554e-01, 8.428148206656598251e-01, 2.996316401010095665e-01, 6.306535313715628810e-01, 3.426174267628401826e-01, 4.712552867255928590e-01, 3.702872850071637356e-01, 5.104302729023614260e-01, 6.010078807754243302e-01, 1.460188248033076341e-01, 2.175725100864717154e-01, 8.460038579713538009e-01, 9.367120390148280240e-01, 3.641536368693049641e-01, 3.726560981618924351e-01, 1.509235708803687570e-01, 5.818745477082966078e-01, 7.460641314540800151e-02, 3.376895333133843602e-01, 7.144000815469668808e-01, 1.245089445404517353e-01, 2.998702137686308777e-01, 5.947283927832234252e-01, 1.843838780441143799e-01, 1.575566108976311497e-01, 7.402466407821556293e-02, 1.867648933907798126e-01, 4.179561069704997300e-01, 8.996574274484440137e-01, 6.644366189255478394e-01, 4.967410746692436652e-01, 9.298270094299125876e-01, 3.817035168878117335e-01, 4.671551040551336631e-01, 6.673575621262909374e-01, 8.773353172062908767e-01, 6.654618585107008322e-01, 6.503763504065570578e-01, 7.789725162160608674e-02, 8.747042854397842904e-01, 4.123451885221726121e-01, 8.002197169100662144e-01, 1.633157914142905620e-01, 6.445751307699143506e-02, 7.642563600026164305e-01, 3.699938807671702967e-02, 8.492079881307835754e-01, 2.158021926685690928e-01, 5.145054412186931270e-01, 3.889345610410737120e-01, 1.877862811710686586e-01, 6.664405839316831504e-01, 9.138763837580351490e-01, 3.562201046636861435e-01, 6.877256394180293331e-01, 2.156464230213267497e-01, 9.331835805001562623e-01, 3.670519214808204422e-01, 4.088194583834580537e-02, 8.899094898929137409e-01, 2.858439215436529846e-02, 8.545277052875071000e-01, 8.976599466509282976e-01, 1.373129829479873554e-01, 9.099397043860357748e-01, 4.930051695369355724e-01, 2.904144264337172876e-01, 7.038261051914111999e-01, 2.831708960839264821e-01, 4.383068699624979581e-01, 3.815923861495744140e-01, 6.712410308728914421e-01, 9.911514517057161411e-02, 9.232252227959839574e-01, 5.031545775978656446e-03, 3.600951214688081214e-01, 8.534369467354994132e-01, 5.422441011146352796e-01, 3.233379786639242193e-01, 1.932721838593720598e-03, 9.826483018158680416e-01, 9.370252580916218488e-01, 3.213713053744565173e-01, 3.072940758260215843e-01, 8.276956680901705887e-01, 9.121970472767594318e-01, 8.369703209294717672e-01, 2.731119205598318556e-01, 7.045444443015609348e-01, 7.382769658476328045e-01, 4.636595612843851799e-01, 4.974082388858415693e-01, 6.088766309331793414e-01, 7.645856361173255511e-01, 5.285094843296671563e-01, 1.942682037794911665e-01, 5.789897237091838900e-01, 4.915197539368254542e-02, 4.490611008055496733e-01, 9.206039839977318007e-01, 1.387001107684145695e-01, 8.349374709527507266e-01, 9.362036531594600808e-01, 2.766673349807138305e-01, 7.488841605873064466e-02, 8.856419382668024864e-01, 6.644394909884657752e-01, 6.764015959702739389e-01, 5.318013869693257734e-01, 6.491308723374951128e-01, 8.378852761347371780e-02, 1.648428369831012041e-02, 8.774149813185472269e-01, 9.904615110197749761e-01, 1.281176191029868572e-01, 7.824260269575991633e-02, 1.628135662230225378e-01, 3.972368297916757940e-01, 8.525024445316209398e-01, 8.595594169766231918e-01, 6.317821766703704545e-02, 5.707230651466238536e-01, 9.464909664141417656e-01, 1.950374352833005864e-01, 5.176405763348609357e-01, 2.541943790336468334e-01, 3.606053236335891587e-01, 6.666235895498532349e-01, 4.075850190657388517e-01, 5.379293352332705780e-01, 6.220926206236911948e-01, 5.075793726667515715e-01, 8.388213678112443894e-01, 8.373604277458559508e-01, 8.072468576060836121e-01, 5.393193655980539347e-01, 8.778328165180855347e-01, 2.182913625031767113e-01, 3.046860634068063733e-01, 5.063101773612088685e-01, 5.019941435300282473e-01, 7.870936019550799356e-01, 3.125303440298550783e-01, 7.310057016173682198e-01, 6.154219024150935358e-01, 5.174837303321329074e-01, 4.799768464765308273e-01, 6.419352573873918222e-02, 4.478374193538885994e-01, 5.265552147651875181e-01, 8.389484443749054554e-01, 7.548794414730084501e-01, 6.107356639049342784e-01, 7.393248030246194480e-01, 2.438761251636306082e-01, 9.931638671805155250e-01, 7.162233489141213161e-01, 5.746505603102340931e-01, 9.805949718597932740e-01, 6.561731605218243946e-01, 7.026567348653548484e-01, 3.662216498350070459e-01, 5.727409507634082519e-01, 4.518928487807468142e-01, 5.428537314705731420e-01, 3.391752595055717856e-02, 7.574865082195387789e-01, 8.554230205460862102e-01, 7.047268154742949431e-01, 6.909079619812718009e-01, 9.914456318982518557e-01, 8.535443046230968278e-01, 9.373478804362959105e-01, 7.913876390189756860e-01, 2.775586091258441801e-01, 9.176970771660278858e-01, 3.830268322939399117e-01, 1.423293186867186089e-01, 6.847248685816528235e-01, 7.386220252111276308e-01, 1.895154212298328089e-01, 9.860771943538787498e-01, 4.091796516530378791e-01, 6.923496682269014713e-01, 7.646411007420055306e-01, 1.205651078191544573e-01, 1.918882635319285324e-01, 7.863346247168581105e-01, 7.301106182948773338e-01, 1.490541300379621958e-03, 5.025254723114523925e-01, 1.141878119696266292e-01, 3.903521275179543948e-01, 8.047712420345313200e-01, 2.520328327257784773e-01, 6.153520212832727099e-01, 8.011836509098163583e-01, 3.170902008035376696e-01, 5.334085946972375591e-01, 9.547357468185716511e-01, 4.114245354230866569e-01, 9.214120218328198941e-01, 1.526784700172383047e-01, 6.103764111671128312e-01, 4.832850519915090626e-01, 5.326225945488402003e-01, 4.447635124868652423e-01, 3.778262284565581108e-02, 5.844530075979682548e-01, 2.042952638539483612e-01, 7.250112673678825725e-01, 4.067365040275371380e-01, 2.752321881661378214e-02, 9.938862158120150836e-01, 5.674198804602456070e-01, 7.988409766422644998e-01, 9.600583101572820466e-01, 5.891776583763385089e-01, 6.114057083806219151e-01, 9.747301948360592716e-02, 9.870245914679387500e-01, 9.742659276280568603e-01, 4.922596752118714170e-01, 7.831961106089639912e-01, 6.587865281147485819e-01, 9.675338680429735883e-01, 3.528125703307219418e-01, 8.069007187584892327e-01, 6.196532575995400416e-01, 6.952921594693748375e-01, 1.234849421727817614e-01, 6.311548622597094038e-01, 9.132433031349802555e-01, 8.419383728412552781e-01, 8.204484387553452329e-01, 7.537987183135910207e-01, 7.457248384861160373e-01, 1.907187261041377591e-01, 9.003717946314659937e-02, 1.486307336941630475e-01, 8.794330352584629473e-01, 7.107165176629141046e-01, 9.435121506315680140e-01, 7.690465446330152499e-01, 4.660215130999317834e-01, 4.366575964839097823e-01, 1.436197271270691078e-01, 6.472520882485746085e-01, 1.299588547824984675e-01, 6.172904157045422391e-01, 5.938146643010137060e-01, 4.412053765093409963e-01, 2.539035597608827258e-02, 6.129395036790763474e-01, 4.610233262718499425e-01, 7.967459596886611317e-01, 3.205094760618141247e-01, 8.536145167452373617e-01, 7.948205696267420794e-01, 2.388888941963358548e-01, 4.263903571844245288e-01, 6.605026225653719552e-01, 7.597772324624191276e-01, 6.897246207566355702e-02, 4.952712528193434910e-02, 6.190570971219110374e-01, 7.963851988904742385e-02, 7.878114460221327109e-01, 8.926938756503342010e-01, 9.938328400159290865e-01, 2.980257786640555517e-01, 6.136863672635067823e-01, 1.947019275317785070e-01, 3.631431469495955966e-01, 5.917039401668419130e-01, 2.795135817807887779e-01, 7.595335602307213829e-01, 2.476227467168902185e-01, 8.343822054723291082e-01, 6.141130247710532286e-01, 7.407945071947139581e-01, 4.216797479603463517e-01, 7.182602839339359280e-01, 3.352315283714022431e-01, 3.559705302569388108e-01, 7.388453380068540355e-01, 5.343373392548785711e-02, 8.945754690013835164e-01, 1.242932458702617343e-01, 6.976721721235173979e-01, 2.601099543648129342e-01, 5.995895259666291777e-01, 1.995210895995858102e-01, 3.371956508937331565e-01, 7.564595093719704844e-01, 8.160009071643149481e-01, 6.494422438141574938e-01, 2.061566832672319660e-01, 2.667566127653284158e-01, 8.424506852453864658e-01, 9.109606195365236303e-01, 1.692128021302788110e-01, 7.879305667935417867e-01, 8.767660016561170666e-01, 7.706850925519960205e-01, 2.933943391481279028e-01, 9.510910021153323735e-01, 7.524658796978741515e-01, 8.574137722687855678e-01, 5.356877735968463838e-01, 3.090231181957868722e-01, 2.891688353764090280e-01, 4.794702809022476087e-02, 8.095685458422829939e-01, 1.992444149768491934e-01, 9.178553717268518319e-01, 5.239693850300637390e-01, 4.732151681724086068e-01, 3.068705290246199757e-01, 8.233370450190514722e-01, 3.556050307703328972e-02, 1.712641417836115731e-01, 6.415605417006450262e-01, 4.996862862381838410e-01, 2.368470147620851396e-01, 4.674668990507315769e-01, 6.168662419560716481e-01, 4.418039134123825651e-01, 2.532168743013731294e-01, 2.564364042053064452e-01, 2.120931827625075483e-01, 6.656695497593354549e-01, 5.713770614256195174e-02, 9.309910092552582395e-01, 4.130256933781065176e-01, 4.364176886316840087e-01, 4.671447275131556665e-01, 3.418424929263742806e-02, 1.763214136080776540e-01, 7.977736969085879037e-01, 7.107349399933136080e-01, 3.814596803234783784e-01, 1.960790114484608215e-01, 4.513439293138055142e-01, 1.383928755488954832e-01, 7.004829627192807329e-02, 9.075407388504288519e-01, 8.716491623738449324e-01, 6.162135760625373493e-01, 1.260624867050175457e-01, 3.123812540331534146e-02, 1.943347752611347123e-01, 5.018199766496160841e-01, 8.692975209772210166e-01, 3.582432427161096333e-01, 7.924237394967994508e-01, 8.520998375198461927e-01, 1.321815661402706288e-01, 2.036553603212888641e-01, 3.556077418002566715e-01, 3.370015859402302749e-01, 7.376232093003936008e-01, 7.291585717239776887e-01, 4.593915324985293758e-01, 8.776355903339927433e-01, 1.259350267025121095e-01, 1.855964955876119593e-01, 3.511389175114076333e-01, 4.354047756683195880e-01, 7.435673174101932181e-01, 1.536742430748213595e-01, 4.927744789699153305e-01, 3.420927735650244883e-01, 3.082368753095020009e-01, 4.557299302338094771e-01, 3.202845128550203813e-02, 3.003866734081692691e-01, 8.208745904494698653e-01, 9.167335336320549255e-02, 9.054942920622390812e-01, 7.757784255697169895e-01, 3.047116191144644826e-01, 2.382307537669872133e-01, 5.398787352351986507e-02, 9.723074404710430052e-01, 4.803313048562226628e-01, 8.344334564019720291e-02, 9.035674330391771925e-01, 8.060397634392846289e-02, 1.447792312149183136e-01, 8.364706099969354547e-01, 9.669607077170477849e-01, 1.427477791763665238e-01, 8.193588372045571555e-01, 2.579667497667049170e-01, 3.295640375631349317e-02, 4.350639508154440782e-01, 7.588018156159100913e-01, 9.451939787146695915e-01, 6.039811504029150013e-01, 2.282659388307020365e-01, 9.201806956464199383e-02, 2.194453942659111423e-01, 3.643891898297932919e-01, 3.378529371865690578e-02, 9.993374738919439393e-01, 4.420599430371016658e-01, 4.841720918600027068e-01, 4.761191485512727417e-01, 3.812275042765180255e-01, 9.082373192608219625e-01, 6.222474837000995240e-01, 2.727853122693348897e-01, 7.798124502453854801e-01, 2.371366676865147571e-01, 7.445605446489151902e-01, 6.778785664583975024e-02, 8.646644261326662528e-01, 8.143725376344475020e-01, 6.575795589801074481e-01, 2.120997159678789934e-01, 2.053884654748423522e-01, 4.555144514475326090e-01, 1.970507488922762507e-01, 8.674877693167568626e-01, 4.272136515766898901e-01, 3.089408663702705171e-01, 7.422465069124886128e-01, 8.007521059244742112e-01, 2.161325304375155687e-01, 6.781834947668251568e-01, 1.939001331051153354e-01, 4.801327194495571549e-01, 2.138470609246926335e-01, 2.998119827612810706e-01, 6.717649040893253209e-01, 2.487002474508992825e-02, 7.879530434227335345e-01, 5.584973663721318760e-01, 2.640578750743485803e-01, 7.117216655238460532e-02, 7.309319020631582786e-01, 8.699046257257720960e-01, 6.095708612719469288e-01, 7.933152018838023345e-01, 1.987043131913848459e-01, 3.417572916847888553e-01, 7.290570331606802124e-02, 4.273751599063287110e-02, 9.022098730028738078e-02, 3.259857324083949570e-01, 5.801015666926544467e-01, 3.355198502710854958e-01, 7.225289083079105001e-01, 9.869142604631080395e-01, 8.638191534562909002e-01, 1.286852189469634387e-02, 8.017945100667720482e-01, 5.463627116427413055e-01, 6.589481685883317175e-01, 8.386895925124723816e-02, 3.300986244796589308e-01, 5.776515991431486752e-01, 6.022166496191876384e-01, 7.242271999411542538e-01, 8.407124008295095985e-01, 5.577059834380821979e-01, 3.059015701739953852e-01, 1.689148706944202383e-01, 9.342937402338423736e-01, 6.355616515045300341e-01, 8.382714145140315321e-01, 2.171147158224423154e-02, 7.084313958131792655e-01, 9.879626077356006286e-01, 2.500687212316986541e-01, 9.672440150982721807e-01, 5.879669462786558665e-01, 6.870605332948261923e-01, 3.295421248166635064e-01, 5.747284297946487763e-01, 6.425952542413404522e-03, 4.384361730260942780e-01, 6.307956064896589332e-01, 5.098819817784514541e-01, 1.744713471360261614e-01, 9.546180213658181923e-01, 3.702887474601743723e-01, 5.660948972351054209e-02, 7.532755466878969797e-01, 5.819841008143262773e-01, 3.780495573843926094e-01, 8.616131113258232999e-01, 1.595761457322772414e-01, 4.953516531848504711e-01, 3.504958285558886777e-01, 9.894297927748496591e-02, 9.131518736392633950e-02, 7.933052245223815024e-01, 7.905583315008278822e-01, 2.137387610315027164e-01, 8.296719402987230430e-01, 5.626261422772642351e-02, 6.927365993958193302e-01, 5.596062374546260099e-01, 1.231199891576204020e-01, 6.217554521597641326e-01, 4.986305374505317634e-01, 3.034238949005503283e-01, 1.246796503000134893e-01, 1.253988094540412490e-01, 2.447192650754520804e-01, 9.799470680644161158e-01, 8.036161162194037644e-01, 9.496825815199086973e-01, 7.612984050180199302e-01, 6.092734770744785422e-01, 1.719122275296925129e-01, 1.310070020244184230e-01, 8.070942254255321080e-01, 2.169191093713172536e-01, 7.949163570808011059e-01, 6.364804964766226369e-01, 3.123531278507914455e-01, 1.959946408917064842e-01, 5.429442221625953024e-01, 6.774737802604108294e-01, 2.139744823631296519e-02, 8.629909119067560308e-01, 6.059309556379699480e-01, 1.066092845404771339e-01, 5.825352220167791251e-02, 9.616449847732793099e-01, 2.066281768374501199e-02, 9.529011023717212092e-01, 4.034128914044339265e-01, 5.405346195887921201e-01, 5.331538130524959840e-01, 9.560549013406361984e-01, 5.448919451869362884e-01, 3.396835073844108044e-02, 2.784472839171983072e-01, 6.160443340863235306e-01, 5.100872737270956137e-01, 2.046259838866829328e-01, 6.278023980510566426e-01, 4.797311933144121632e-02, 4.921978375771225434e-01, 9.506126566746373463e-01, 6.395280464519311758e-01, 1.566077812396654903e-02, 5.486994973593829483e-01, 4.397423985950486003e-01, 1.964967522746847439e-01, 2.472169732944051179e-01, 8.106074194710197744e-01, 6.077236736036667475e-01, 2.757305492913936229e-01, 3.321011021804877450e-02, 1.224191970707517868e-01, 4.856971991320952475e-01, 9.819866696962180619e-01, 5.112332137741214533e-01, 8.625305377500149806e-01, 5.650709578503123609e-01, 8.436028937056264665e-01, 8.328996609785799254e-01, 4.798188742914378246e-01, 7.001609433387672166e-01, 9.828234172247271028e-01, 8.882558172913768146e-02, 5.108843535751188547e-01, 9.040856136889526828e-01, 5.396654074101062681e-01, 8.289852267439509204e-01, 2.145591706925092934e-01, 3.753193078692468494e-03, 2.462981321969220094e-01, 5.688316419492263076e-01, 8.493510564469342050e-01, 2.710135065491965367e-01, 8.825751628591860243e-01, 8.095733034252345917e-01, 8.621849168826114518e-01, 4.363581879247154793e-01, 8.961867200468827122e-01, 8.639524241947098560e-01, 4.572224739495708845e-01, 5.488504095923042447e-01, 4.160645402812127025e-01, 1.387165014587318224e-01, 7.046696642056020643e-01, 2.364331678817854776e-01, 4.445477849815546723e-01, 1.161123362393566144e-01, 7.549309357802815867e-01, 3.137973471941867161e-03, 2.330985296794818584e-01, 3.609303233378357012e-01, 7.080774700228260610e-01, 4.560991886289031960e-01, 2.201293011885104012e-01, 7.526150108247720016e-01, 9.431431068250178962e-01, 6.729290023243379437e-01, 9.651756644292484033e-01, 3.490953362013451411e-01, 9.505506346309380294e-01, 3.178974504807382390e-02, 8.265139095674679526e-01, 2.666230798249154543e-01, 1.766864944320149511e-01, 7.659198142229522999e-01, 5.800659929371426715e-01, 7.436615558191622677e-01, 8.662735165374844115e-01, 3.466125953218523459e-01, 1.087274679780690229e-01, 6.983506721204114642e-01, 4.634563050436341092e-02, 7.847735184010364851e-01, 5.159461738233952488e-01, 1.044438583523525921e-01, 8.790269981082986517e-01, 6.025073842873470698e-01, 4.976859692495357868e-01, 7.733801471732831834e-02, 3.362169569879739917e-01, 3.058512631163594619e-01, 8.912975964791172157e-01, 5.785258973765941004e-01, 8.456916886016225821e-01, 9.491179001129531612e-01, 3.233341124083582430e-01, 1.501623064438322996e-01, 8.667750920585368668e-01, 9.770714801411042316e-01, 6.687714672572721009e-01, 4.979284470836692345e-01, 6.455393705760976708e-01, 6.581232049069946077e-01, 1.190611067802713613e-01, 7.312127051683464662e-01, 9.413230697810033576e-02, 3.900768642033873856e-01, 6.431689133605396069e-01, 3.059881473877025249e-01, 4.687303565209279266e-01, 9.852930263910756326e-01, 3.481534079693819894e-01, 4.186884189065512851e-01, 2.500171998715753352e-01, 9.934448278928764697e-01, 3.082861898552236024e-01, 7.785315744417649064e-01, 7.283496965131944778e-01, 4.561328406726696677e-02, 8.530881145870221616e-01, 2.177009041531717815e-01, 4.546525362188523767e-01, 2.806508682805466393e-01, 1.724349123292771013e-01, 9.353827023416264597e-01, 3.996712806079782965e-01, 9.418435492464429792e-01, 8.242595833922649051e-01, 1.344750884642774702e-01, 2.475136587379162256e-01, 7.768379821886702841e-01, 5.192490771404760785e-01, 7.643665749480118565e-01, 1.451993240153988951e-01, 1.410571818997723159e-01, 5.818498335522059861e-01, 3.286035545222753540e-01, 6.068602421429373228e-01, 6.129045233857904895e-01, 3.394627033242517133e-01, 5.594548305039812597e-01, 3.844871432930032640e-01, 2.871804650622354349e-01, 3.562609344577178372e-01, 7.747311883025645995e-01, 2.519865693699590570e-01, 5.058333164852402142e-01, 7.668583861178606131e-01, 3.700417166753587894e-01, 8.051169818728121097e-01, 2.191130102421270376e-01, 2.038651434082602021e-01, 8.311151481932854690e-02, 9.755111995982992390e-01, 6.165173019017136102e-01, 5.905650198867413714e-01, 4.414293214415757616e-01, 2.746458984891586574e-01, 7.793974616666844435e-01, 9.247007628709216220e-01, 5.019268417452354969e-01, 9.566569996585148061e-01, 2.563036176180174541e-01, 3.364934515875934729e-01, 2.317211973033554973e-01, 7.188859951861020781e-01, 2.251425171861492491e-01, 2.043806884375753280e-02, 7.795012041126235802e-01, 8.620504406376984230e-01, 8.465245607418463436e-01, 5.039965512767988765e-01, 9.647323254986511776e-01, 4.960258702309378043e-01, 2.097541683849112604e-01, 8.040495565708535297e-01, 4.009255069054096232e-01, 7.699964892973548691e-01, 7.067351990918521176e-01, 5.046073658895295910e-01, 9.683022197874262271e-02, 2.467073224506722007e-01, 6.164602791436086804e-01, 4.542425699044582155e-01, 4.299891535622537564e-01, 8.458335455714012241e-01, 8.999230323141005350e-01, 2.286951379706886889e-01, 8.392121012620490372e-02, 5.625757803620961006e-01, 8.075591091344591632e-02, 4.015187897077419632e-01, 2.140352815198182101e-01, 7.690703060878543162e-01, 3.771286803534280585e-01, 4.877219522657672002e-02, 1.549720155069131133e-01, 3.221264393258149727e-02, 1.819113103020548461e-01, 4.221282856087178459e-01, 8.969917661576081169e-01, 3.948240408473242535e-01, 1.968747679192681677e-01, 9.223762453369286352e-01, 3.619013267287717328e-01, 8.151173112135940979e-01, 5.644406993594693889e-01, 8.577971533315489339e-01, 1.396558388670928186e-01, 8.740416346018478055e-01, 8.339248917691320928e-01, 1.402123106437442035e-01, 7.104990769940050521e-01, 8.165918134458189925e-01, 3.691850911242102740e-01, 9.953810912119275267e-01, 7.977064473949838641e-01, 2.170367098535666006e-01, 2.146666936014440807e-01, 5.191348982318834127e-01, 7.036510683776564523e-01, 1.125924908310622641e-01, 9.090379662531098554e-03, 3.761441465493156056e-01, 6.996662825812602904e-01, 4.752252342575064570e-01, 5.870473478754630881e-01, 9.799273519655173903e-01, 3.782879607647920972e-01, 9.503370278506706459e-01, 4.704046226427061606e-01, 3.075221375088387221e-01, 2.324146423303245224e-01, 9.169521258935251495e-01, 4.002176585611764703e-01, 1.606350718113008502e-01, 6.086769138234979781e-01, 3.761558565256092890e-01, 3.597921725453992470e-01, 1.138435905121508718e-01, 6.176572863946328679e-02, 6.092122377695392554e-01, 5.054862172543570648e-02, 2.602601374706236537e-01, 2.874617274840054471e-01, 8.133054186653030371e-01, 4.037544043640318159e-01, 3.701202839671346445e-01, 8.975967331339100852e-01, 3.121517308617553499e-01, 3.158814838381461820e-01, 6.909224782614178384e-01, 9.502007601803251768e-01, 5.732475981255440445e-01, 8.075019073058687935e-01, 4.763031819715426995e-01, 2.870492569323991883e-01, 4.604960744446656706e-01, 9.976081937056943127e-01, 3.920774939546574356e-02, 6.095215584543872689e-01, 4.331894154548180942e-01, 2.830450550915881158e-01, 5.349660252226857704e-01, 2.731681246467070889e-01, 5.839676736427433790e-01, 3.093092494581899943e-01, 3.315010874766179949e-01, 5.686039294930359533e-01, 5.762486692907611285e-01, 6.805858604618385543e-01, 2.460489607417428726e-01, 5.463251032683758002e-02, 5.757282452074153484e-02, 6.847016366814594468e-01, 3.477800412122176998e-02, 7.196360135892708731e-01, 2.414774041272462757e-01, 1.431726894292348895e-01, 5.011674237284421407e-01, 9.906049997847115041e-01, 7.269308271928963672e-01, 8.716331470937086490e-01, 3.913551294630072119e-01, 2.176945117102202509e-01, 3.554339180997991843e-01, 8.222694856990142576e-01, 4.493780971008520114e-02, 5.572424804103294216e-01, 4.965294314077695614e-01, 6.622492827870567478e-01, 7.374853383005997021e-01, 4.649373176621771075e-01, 6.907391411246482926e-01, 9.444468618009940197e-01, 2.881072513081381903e-01, 7.118725029858422593e-01, 4.871207119060668167e-01, 1.583371446100896862e-01, 3.400333571417774384e-03, 6.537749430445786158e-01, 5.276103437210188929e-01, 7.515237573850450659e-01, 2.283675553425520421e-01, 4.617588407651760374e-01, 1.838554099360622252e-01, 2.396631732927767544e-02, 8.190359132940153719e-01, 7.478777136146217419e-01, 3.423712124624019720e-02, 9.391672280274523388e-01, 5.885040897182476360e-01, 8.581196109719010368e-01, 5.637862382818467077e-01, 5.570058524468520789e-01, 4.204442025304171437e-01, 1.183962828138507631e-02, 3.753297636574245283e-02, 2.431711162812628391e-01, 5.942939962675731769e-01, 1.362323445369092445e-01, 9.627261104224664745e-01, 1.471020743673113074e-03, 6.974843660730544181e-01, 7.948927297838114248e-01, 3.876476140741839105e-01, 1.075349208261545814e-01, 6.319497131264707468e-01, 4.953640088518271867e-01, 6.395971996297665774e-01, 8.498369962810199407e-01, 7.828635102662017120e-01, 1.826648546512547044e-01, 6.289283574624612849e-02, 6.881295188437661636e-01, 5.219105078597984226e-01, 6.271298969561314163e-01, 4.425123919484933444e-01, 3.634312018504519681e-01, 9.043520841335005167e-02, 5.646167655155037712e-01, 6.600858838498575576e-01, 4.231394496093661139e-01, 7.200120125746491961e-01, 5.242172155186546334e-01, 6.082358582567193306e-02, 4.714070835205713683e-01, 3.700723003503492148e-02, 8.853672471372900921e-01, 6.410256537264723553e-01, 8.994763884996543890e-01, 7.954365121424504803e-01, 3.481752370860983214e-01, 8.381543564936821955e-01, 8.235244646733390628e-01, 2.625206932014307881e-01, 4.626447538227179135e-01, 9.351457337188761043e-01, 4.339098901221188354e-01, 5.744320919731426001e-01, 7.284241673320875909e-01, 6.483250860559501838e-01, 4.762634256757606321e-01, 5.427056525302654810e-01, 8.194462847854344645e-01, 1.330198722170009562e-01, 7.835529784535053555e-01, 3.009464456151034750e-01, 5.104053996768057599e-01, 4.164662691895155699e-01, 7.526428781595517759e-01, 3.698830071873721037e-01, 7.340120055178910308e-01, 4.041035266041861918e-01, 1.496237683507661322e-02, 8.031593008017665625e-01, 5.877014917135808814e-01, 6.312722437054461011e-01, 2.363371203787821562e-01, 1.661535660045222185e-01, 8.932936868482208581e-01, 1.619701395738534500e-01, 8.281810675952527845e-01, 5.627212129099409266e-01, 3.406583550772293578e-01, 9.632573291313473174e-01, 9.780861940057397064e-01, 7.297511185273348744e-01, 1.953464607089416827e-01, 8.789070118354773420e-02, 7.466091562762313671e-01, 2.180320665946709202e-01, 4.052038559811111940e-01, 9.724534703238318922e-02, 8.541583129303474964e-01, 6.358215584116596597e-01, 5.342209099154593410e-02, 5.520347692797779038e-01, 7.485362891700489962e-01, 7.675237943613978375e-01, 9.308047144159041775e-01, 1.333570622566702113e-01, 2.423905955890423014e-01, 3.385826828511644959e-01, 1.125014511896571950e-01, 3.200813428519159176e-01, 6.505090760455127796e-01, 7.097800714382900278e-01, 3.745258942324687368e-01, 2.270367393389745858e-01, 5.910943289205885520e-01, 2.142235169147930773e-01, 8.481997877391959095e-01, 5.519728726540190644e-01, 1.486182932956597869e-01, 2.754839456972191236e-01, 4.295120158184751458e-01, 8.192590855846282327e-01, 7.057448123655446492e-01, 9.812750142311127410e-01, 8.658671727723858957e-01, 7.697026982240618986e-01, 5.975893420010897072e-01, 5.013346462947579907e-01, 6.155794232477119765e-01, 9.229447431254018674e-01, 3.576946175407097472e-01, 4.832822023057771199e-01, 4.214489670412612660e-02, 1.302997645167159324e-01, 3.469103838630923642e-01, 3.741593501201809224e-01, 9.054626618686949513e-01, 6.307731411773059849e-01, 5.332149694337268153e-01, 6.283497626448024675e-01, 1.813147189381277835e-01, 7.633332971836194192e-01, 8.823719772593102695e-01, 9.498132575897039187e-01, 7.871300839351956791e-01, 8.600944348808688966e-01, 9.326422850806146414e-01, 8.085749612810554376e-01, 6.875457853991757684e-01, 1.145114593107535682e-02, 3.806455249992056200e-01, 8.266658509548020506e-01, 7.980053664070828612e-01, 8.686564703339531845e-02, 2.771884739233805295e-01, 4.531972842923897571e-01, 9.033411735125131958e-01, 7.976159821284702911e-01, 2.824404993200030356e-01, 2.695880281648555532e-01, 5.344251119428102825e-01, 9.169314707679110388e-01, 6.392703799005050591e-01, 2.431039618630773669e-01, 8.209573680575430465e-01, 7.633859749472435841e-01, 6.701862399062576969e-01, 3.115945338316842284e-01, 9.278134308099056371e-01, 9.985773024987645297e-01, 5.399050077178710882e-01, 8.251830532408422902e-01, 7.261155238511312060e-01, 3.776354325778334409e-01, 3.112709934253891086e-01, 6.513197546540595573e-01, 9.319289098989155251e-01, 7.126031784366446686e-01, 9.183738462620233411e-01, 5.656947332317320276e-01, 3.760123404673704761e-01, 9.507246717544658443e-01, 6.801676860765082377e-02, 4.350391136442500334e-02, 2.530676535515371528e-01, 3.921405348566735505e-01, 7.702900465735269542e-01, 5.548283916392807713e-01, 8.563626169211183692e-01, 5.757144945883834186e-01, 8.714437406383664930e-01, 8.580327796666634699e-01, 6.674583105418641082e-01, 5.940560798780355478e-01, 3.208754368904385146e-01, 2.336947765044181669e-01, 7.652223300309775045e-01, 5.963164153590722050e-01, 6.354576577703908713e-01, 4.348668174130293496e-01, 8.443287158534337200e-01, 4.089493163900713157e-01, 6.709365861806331210e-01, 9.761981392649309308e-01, 3.111569229214986576e-01, 7.897294211591285862e-01, 3.070414921199335900e-01, 7.710380873362865373e-02, 4.872791937619818659e-01, 8.400706400586362976e-01, 5.857614303929316035e-01, 7.311827030415366524e-01, 6.279898063164643940e-01, 2.094870493524013111e-01, 6.284284897748915188e-01, 2.261466765145825342e-01, 1.466717807866488865e-01, 2.153150052221499966e-01, 3.143697475702835198e-01, 6.827113996623618286e-01, 1.465500861205647487e-01, 4.308537797798456248e-01, 4.641205396019264517e-01, 3.116021083073886033e-01, 9.886389103491729502e-01, 9.651289240885353449e-01, 4.770079926267234427e-01, 2.430269340559606805e-01, 4.123152387356691650e-01, 7.923858511464839660e-01, 8.383197634524210962e-01, 2.200640652013700072e-01, 7.476699465470457717e-01, 2.942997265823609765e-01, 8.638723979312112888e-01, 3.087506365204388814e-01, 3.180600267073998566e-01, 3.593246898849544735e-01, 8.649681353443457177e-02, 2.532285219776467255e-01, 4.653945057977664224e-01, 2.831112581056676736e-01, 9.320931155831929660e-01, 6.086086110996001830e-01, 1.591223637933970037e-01, 9.379457795716693580e-01, 8.991359415862949511e-01, 8.727786373943523246e-02, 3.055170745042734004e-01, 9.296296638501991283e-02, 6.862528721673228915e-01, 3.317300843869335769e-01, 7.921634418703406011e-01, 5.051119608313072717e-01, 8.778340506147546130e-01, 3.762278388573228605e-01, 9.867210889543107655e-01, 2.643442554168882186e-01, 1.275892752620654269e-01, 5.678226917517000816e-01, 3.268027076581550006e-01, 5.976528594968405494e-01, 7.273670239390775949e-01, 2.948006875083477030e-01, 2.614536731282846027e-01, 9.210563741594034459e-01, 8.963574865297080363e-01, 4.079858611377393252e-01, 9.682128435947737755e-01, 4.416999225576028754e-01, 8.857235496548242493e-01, 1.684939484207893523e-01, 3.033962661199828825e-01, 4.493658372382484112e-01, 7.859199068369346897e-01, 3.323804597029665353e-01, 5.005306989872019274e-01, 3.960351074293970153e-01, 2.031937008869565478e-02, 8.605767823860073218e-01, 9.339109549143246314e-01, 7.941328039009100115e-01, 8.619793527639196817e-03, 8.062152680636854862e-01, 4.182402415652932137e-01, 6.219412983566716679e-01, 4.176248371771246748e-01, 2.784336123358666093e-02, 5.232841172833235105e-02, 6.459367652103041868e-01, 1.857310430941505330e-01, 6.252390288554487974e-02, 5.757221645879256888e-01, 8.810483443859543767e-03, 7.118703454120671736e-01, 7.235435736244607563e-01, 7.723619016985637797e-01, 4.053744236665075551e-01, 4.323395382367729578e-01, 5.005429306989513938e-01, 1.493529525507701905e-01, 9.756350496781991399e-01, 3.404736449540477494e-01, 8.079664643891397713e-01, 8.948088429388134646e-01, 7.906537438063574452e-01, 3.655120730303696996e-01, 3.999678857831750478e-01, 8.546559650550004106e-01, 6.265908375641084938e-01, 2.233780732952658776e-01, 1.749238043373629869e-01, 3.835370414046965770e-01, 6.073046327945441636e-01, 9.668558026312653597e-01, 1.979592016220245165e-01, 3.609144031340264513e-01, 5.717359381490059178e-01, 2.702109356220725456e-01, 7.209052694821553864e-01, 8.369756666004259937e-01, 7.476954656009199285e-02, 3.984706509988472645e-01, 7.654493417110544984e-01, 7.889705727731368690e-01, 9.564123756025667555e-01, 9.567410581725993568e-01, 8.693481420637263479e-01, 8.524638765884783309e-01, 9.777094198646529843e-01, 2.221754090991534536e-02, 5.402990379408376675e-01, 6.788846127510104189e-01, 2.488732547317303867e-01, 3.588398866972482976e-02, 5.642546776962801269e-01, 6.814572295712220118e-01, 2.628268515674024308e-01, 7.621557402494645306e-01, 2.631159428646814291e-01, 2.518313790032692401e-01, 7.182882909848420372e-02, 8.781719427181571280e-01, 2.994544115961852437e-01, 8.633643786159245215e-01, 3.579244633788548069e-01, 6.280703407267631544e-01, 9.535849879881450608e-01, 3.296779307475627974e-03, 2.217456902781339556e-01, 2.877760098427099567e-01, 9.933172451771149492e-01, 1.371800341358180020e-01, 4.256749266230291928e-01, 2.719531452118995052e-01, 1.930297713156063355e-01, 9.862518894560931004e-01, 6.216434905277984369e-01, 5.904963746268492297e-01, 1.214019707969278966e-01, 8.243985956038276663e-01, 2.735049500461180227e-01, 3.843204280241894755e-01, 1.269462290338466970e-01, 4.107775162845669348e-01, 7.373092818767725820e-01, 2.851121581414881034e-01, 8.465640531412005343e-01, 5.287536738741631659e-01, 6.468270665198373459e-01, 7.634279258029504911e-01, 2.901914647905660671e-01, 8.003380246111313490e-01, 2.740690370550653565e-01, 9.892450004959629783e-01, 1.816571590403545933e-01, 9.515976303691607852e-01, 6.222894056914225480e-01, 8.883855517563050974e-02, 4.263744260535886621e-01, 2.451749140841029961e-01, 6.680397588119827423e-01, 4.355181473659353042e-01, 2.707143850127696205e-01, 4.756699714578528360e-01, 7.436863043487108582e-01, 9.548088283237665674e-01, 3.681008557803737147e-01, 6.068139450061681428e-01, 8.454527390790806951e-01, 7.704111199437468915e-02, 9.290876508374412701e-01, 4.894080883162821305e-02, 7.112432565739349455e-01, 9.531838337718107068e-01, 3.975302177030358153e-01, 3.170576865227745511e-01, 1.081153700347938229e-01, 5.246743799765926086e-01, 2.393674938220526072e-02, 2.503928688050551243e-01, 7.641747544393007185e-01, 1.803051281608007705e-01, 6.561521093992360720e-01, 4.121304107127095051e-01, 1.637871686231409663e-01, 9.811686347173588230e-01, 8.690819275888530537e-01, 6.296103176113390099e-01, 1.303955528327418456e-01, 9.314496685186047786e-01, 8.259678123067807354e-01, 7.481989048911700246e-01, 3.844616358805207912e-01, 5.435384848587732076e-01, 8.417350420203725259e-01, 2.804191525397355944e-01, 5.691143511721601378e-01, 4.731794283725920813e-02, 6.778108192563816470e-01, 6.980451324584475703e-01, 8.549603553015254764e-01, 2.748719345860607399e-01, 1.777580324714530535e-01, 9.079789962190986108e-01, 1.843775645091539905e-01, 7.657245762063088490e-01, 3.577319003048747836e-01, 3.808526327699012642e-02, 1.253019191734510707e-01, 8.239918985653238437e-03, 7.592589249224527270e-01, 6.204789775527717044e-01, 7.379305537323259667e-01, 7.042944162759706694e-01, 8.045727609851140161e-02, 4.665404624037255976e-01, 6.739822291237518304e-01, 8.717075612088608372e-01, 9.191411266100203425e-01, 8.667684963611951288e-01, 6.782787623040726910e-01, 7.293092508267208229e-01, 4.873120292049368807e-01, 4.093534458477480764e-01, 2.374887254368649447e-01, 3.779183480839575227e-01, 3.477347313547400343e-01, 5.048359985747751244e-01, 9.445203927462828553e-01, 1.760125048722381014e-01, 3.649111298210343524e-01, 1.072601835806596612e-02, 5.260777116887227489e-01, 7.214561211272471075e-01, 4.230878850299630289e-01, 6.116870086178731736e-01, 7.282040848450168635e-01, 3.322908334197401392e-01, 2.567136061489542209e-01, 1.681421565195522216e-01, 6.051298742431002742e-01, 8.277840881123130767e-01, 1.073387088382845578e-01, 7.611969129029882986e-02, 8.957015921637869749e-01, 1.384211012725718726e-01, 5.404594800629736184e-01, 8.244839707757090075e-01, 2.685752535798164864e-01, 7.407913641157370943e-01, 5.833368415818462882e-01, 7.019047930159225679e-01, 5.970058616063782519e-01, 8.541877415150149755e-01, 1.881712336121281123e-02, 5.265724456751942339e-01, 9.845721307843630088e-01, 4.194092903038533215e-01, 5.184141121679508579e-01, 1.789244968326748203e-02, 6.835398046382774873e-02, 5.832690942666286515e-01, 7.960740626379957385e-01, 9.667239667047275997e-01, 9.164302364221382780e-01, 3.617466152249151357e-01, 1.905121238630854696e-01, 4.218002012372059628e-01, 1.679718009035745530e-01, 7.812351770722097966e-01, 1.553919472782967215e-01, 6.301109840389497174e-01, 1.667620373393045030e-01, 8.400469793802811669e-01, 2.951752905571662922e-01, 9.414876765869806263e-01, 2.513795846240832188e-01, 3.259387396473023002e-01, 6.221256843420960303e-01, 3.325635298696767994e-01, 3.180803903809683586e-01, 3.536650008432790648e-01, 4.239597525826052093e-01, 2.027613302275983465e-01, 1.049774809198383840e-01, 5.840914933150690436e-01, 5.320142350607703907e-01, 4.555441016040125135e-02, 4.222222028374219560e-01, 5.837961302871820246e-01, 1.710369295054919025e-01, 3.510372062300756157e-01, 2.179283832578430835e-01, 7.550786200512168422e-01, 7.285766016254531241e-01, 9.303970582106095843e-01, 5.121254987882511989e-01, 4.996038626085185785e-01, 5.040052663952181433e-01, 5.908902247263136953e-01, 2.365249426594252802e-01, 5.280509371491582948e-01, 2.977292262160354808e-01, 9.052565951785616072e-01, 7.854155687827837351e-01, 1.709781310090950912e-01, 4.772870902623925771e-01, 5.401604451044783595e-01, 7.484919579234289300e-01, 8.211503444022359988e-01, 2.475910230434806847e-01, 7.971606156274525512e-01, 3.432871717907427511e-01, 5.802580296836004070e-01, 3.636388971188864172e-01, 2.652869571890673628e-01, 4.315900700831749037e-01, 5.059051867869251984e-01, 3.191547422748506335e-01, 7.680189577146718793e-01, 7.444344354350679316e-01, 6.787166996002957919e-01, 9.003276818322927255e-01, 2.477440154488048663e-01, 7.333374014822398035e-01, 3.972323974095606225e-01, 9.378566978763318573e-01, 8.881835740707355598e-01, 4.716521932125304906e-01, 8.255359077733582795e-01, 8.528718922029734362e-01, 6.753474932579115464e-01, 2.204630707602235618e-01, 8.072717653059463538e-01, 8.376071005618546117e-01, 2.629493241971808115e-01, 4.529386897572512116e-01, 6.951412012315811850e-01, 7.692028268996982110e-01, 5.537087403624398885e-01, 9.713282719541311838e-01, 1.714942496652667459e-01, 2.439414295849563485e-01, 4.995817947774441881e-01, 8.770561413084732028e-01, 3.316618903973987953e-01, 8.104364404123682863e-01, 3.793533486211431160e-01, 7.426392576467255591e-02, 5.648690869601493553e-02, 7.141428565504044368e-01, 6.354931215388136545e-01, 7.667449429667727578e-01, 4.490113677357034372e-01, 4.128250333628017965e-01, 6.344744389837722043e-01, 8.502217457180117899e-01, 7.441739545191639049e-01, 3.188755650465906477e-01, 3.557217493836238309e-01, 2.511183585788464012e-01, 2.167741469215460695e-02, 8.716163044282143613e-01, 5.331022048839494376e-01, 8.353713241244525856e-01, 4.549233267501445188e-01, 1.781993260266642454e-01, 3.901147395878629132e-01, 1.403066830297343415e-01, 1.667638563854052791e-01, 5.498575019950210363e-01, 3.905905343238734728e-01, 2.751105336129378576e-01, 4.809912742815115605e-01, 8.153850494878037702e-01, 1.724715826825357068e-01, 9.888652834386063573e-01, 7.244497866856630663e-01, 4.048366365379990062e-01, 6.830555104224866891e-02, 3.304971390089626593e-01, 7.152722017217645334e-01, 1.437293027189459615e-01, 5.560337143440586827e-01, 3.750951871816404770e-01, 1.425090008793592489e-01, 1.812017716905455489e-01, 1.244841842616422750e-01, 7.412402184226468682e-01, 1.538942692221601238e-01, 3.181912393032060304e-01, 2.643479663245817401e-01, 5.359225680703462169e-01, 7.191222215716864818e-01, 9.739654420057626272e-01, 1.603261163283919988e-02, 7.234040555220154489e-02, 1.384538529214183189e-01, 5.527525940270303639e-01, 2.794771078833750977e-01, 4.267621693169917907e-01, 9.000668516806994424e-01, 8.570238465898715186e-01, 1.783597734240415650e-02, 8.869733253666299833e-01, 1.157411895099496602e-01, 9.344221782746724436e-01, 1.830844166135028039e-01, 5.490182854979354099e-01, 7.141025106251148724e-01, 9.596510339001004253e-01, 9.096548913492750188e-01, 4.788356478167326014e-01, 3.117370998650873526e-01, 3.280394522390881473e-01, 7.537535681759331974e-01, 9.936841355514205443e-01, 8.609965423232704973e-01, 6.167541657694887158e-01, 5.699009656648856836e-01, 4.978721514630745082e-01, 8.931684495007924385e-01, 6.597200327305909884e-01, 8.833003614632659595e-01, 9.466012431440452568e-01, 6.818559062337118393e-01, 4.878619948797714434e-01, 8.664178742141837031e-01, 1.719007992342138358e-01, 7.346254753241414637e-01, 5.444615889432189437e-01, 3.348112079388709805e-01, 6.957134057245054071e-02, 4.628267343057878014e-01, 5.390864944642393963e-01, 5.541287348304286819e-01, 4.022318249377604404e-01, 4.427425623239742425e-01, 2.107860733162332523e-01, 7.476706933663440245e-04, 7.224018517355422775e-01, 1.230981107474780033e-02, 2.165763375146396719e-01, 2.817649648872337376e-01, 7.568789358399189426e-01, 4.268983344607283903e-01, 4.630765943034143017e-02, 8.280871358960095741e-01, 7.117645199771743814e-01, 6.958491237059721835e-01, 8.436182311340445494e-01, 9.157449083191546713e-01, 6.201885007670404626e-01, 8.960068560360817669e-01, 1.706538493618938723e-01, 7.160760390510817475e-01, 4.731939325076725544e-01, 9.468012942889980632e-01, 3.178228702805624417e-02, 3.101100989896725668e-01, 2.935845709568068451e-01, 8.170483449764031070e-01, 9.913307856852793254e-01, 7.031896524632452739e-01, 7.933253851412806756e-02, 9.815712093497720447e-01, 5.655938722820942344e-01, 3.058549316269778065e-02, 2.711143257333873402e-01, 6.076251523237830021e-01, 6.256049100669930363e-01, 3.273795338697564894e-01, 4.103492612286470109e-01, 3.864993092201788327e-01, 6.157260140642087931e-01, 3.234148022954879131e-01, 6.836738197167260278e-01, 7.694546514466299447e-01, 6.625114169710139000e-01, 8.848499003014775877e-01, 7.269463182623798758e-01, 9.507188729379896230e-01, 6.078034848416461466e-01, 5.412336226183579457e-01, 5.886876481815948026e-01, 4.311417834378385994e-01, 7.802304221289255715e-01, 6.889693259034996853e-01, 1.584943440919419633e-01, 9.447126657812333628e-01, 2.029806800691487112e-01, 7.558380445209768039e-01, 3.066212832269125596e-02, 5.611098245843292309e-01, 3.156117459869834385e-01, 6.413956614566808101e-01, 9.880949166451837851e-01, 4.503210569915401251e-01, 1.095411163891324945e-02, 2.128078874349881855e-01, 9.747423704734901051e-01, 8.312831521146865077e-01, 7.483738652800272506e-01, 2.600165359818890631e-01, 9.577393236445979063e-01, 8.884795607264464046e-01, 3.250811253720201632e-01, 6.962189293274136104e-02, 3.601533959529207296e-02, 5.990282410126135382e-02, 3.413522543290543609e-01, 4.351480426507318144e-01, 9.482064438160687780e-01, 8.546921276806671575e-01, 1.569362569466172252e-01, 6.560913261662956186e-01, 7.512742528331084468e-01, 9.604899556318780007e-02, 4.058243833457453875e-01, 6.924217930906151341e-01, 5.424464870196999966e-01, 8.584813320636104361e-01, 6.902871783744188861e-01, 6.751807372384621697e-01, 2.964102854476476367e-01, 3.809634989066827404e-01, 5.107499731270809251e-01, 3.056986732401256041e-02, 6.584018983679732484e-01, 2.676485415965079162e-01, 5.571415694577643851e-01, 9.396367915849113128e-01, 1.605618076927301519e-01, 5.146829648689421610e-01, 4.597843509135337570e-01, 1.561580401673219320e-01, 9.730816824710581958e-01, 7.715699703593695835e-01, 2.342356609720402660e-01, 6.261462996313101881e-01, 7.536471922511318589e-01, 1.325409410757599493e-01, 7.952865345709536626e-01, 3.666141495368597791e-01, 7.207882619091190435e-01, 8.314174884082280448e-01, 2.193467050830797960e-01, 5.347636631938305074e-01, 3.644820062463794974e-01, 1.363669269043077392e-01, 1.534081929119989196e-01, 3.790433840530483822e-01, 6.942277709289852439e-01, 6.936737435359859871e-01, 4.358676110181577967e-01, 2.550998888608202453e-02, 3.255502526476779512e-01, 5.338719409883662115e-01, 6.139508120330411378e-01, 1.637340978626395938e-01, 4.539498400293676683e-01, 1.485581066203426615e-01, 3.348472033798315373e-01, 1.620277452111971717e-01, 1.571985479346458270e-01, 7.400757856688795489e-01, 1.644828700241329211e-01, 3.059194294567698647e-01, 6.154070188954676723e-01, 7.957429138962963666e-01, 7.608619650434924608e-01, 4.786069883904099931e-01, 4.634697933695237082e-01, 6.733483965845420416e-01, 4.071795808808800210e-01, 8.222853793727870064e-01, 4.861834705714803695e-01, 4.590312629607765094e-01, 2.600940709172388510e-01, 3.057472622608807256e-01, 2.566475767465423163e-01, 6.757652618556364565e-01, 2.332108300994131245e-01, 5.639789272111145335e-01, 7.484906717317169056e-01, 1.737546564439551022e-01, 5.954077604251623024e-01, 8.168542488421605130e-01, 8.841907488027256345e-01, 5.317309096380462563e-01, 6.204381640831222594e-02, 4.801907318282847004e-01, 2.369728362184264636e-01, 6.399079450371519817e-01, 9.955422544551025821e-01, 7.088972138919907851e-01, 7.497964010503495036e-01, 8.872287585543856547e-01, 5.433430692523426586e-01, 4.514985210303130159e-01, 4.094381581158093586e-01, 2.033117525839950313e-01, 3.053255833249302054e-01, 1.750009872755471374e-01, 6.348078869759395948e-01, 7.617575379510218569e-01, 2.807725663532378846e-02, 6.876693974615322169e-03, 5.281321809994590222e-01, 8.619080745018127265e-01, 5.933024539069561287e-01, 2.973874571026253188e-01, 5.429844328289310518e-01, 3.158707535241661035e-01, 3.985894001817925636e-01, 2.402986517486993545e-01, 9.271550291263563892e-01, 4.939051012244737304e-01, 7.412441224222668934e-01, 6.855396139802638622e-01, 6.325401885227676102e-01, 7.609153070830178001e-01, 7.664454740915908060e-01, 4.247226760440500071e-01, 2.425412900103997849e-01, 1.166610794247194133e-01, 5.284392997543986281e-01, 1.634313737643632303e-01, 9.688944589503860616e-01, 2.102829261604879652e-01, 7.939276610575171089e-01, 3.456360581357677958e-02, 4.966589452394173931e-01, 6.400305889056852326e-02, 4.471330277239640161e-01, 8.003002920937158926e-01, 3.662197897938170854e-01, 9.912808255712489691e-01, 5.753402719340315885e-01, 1.775330335161778156e-02, 7.245744355147811788e-01, 2.807827218882795739e-01, 8.028218805808507996e-01, 2.964872853070091296e-01, 1.216568572882326116e-01, 6.211736177431309569e-01, 5.292907414892957796e-01, 3.499613641498509620e-01, 9.442321159878733772e-01, 6.665175094458813954e-01, 9.845635143726824134e-01, 3.772328960026661848e-01, 2.135372061260542298e-01, 7.446368522623828534e-01, 4.729216522873311845e-01, 2.484256824808808162e-01, 4.317081408236673745e-01, 2.319182555863190942e-01, 4.445922830762861766e-01, 9.664498140178272578e-01, 9.228544316408190396e-01, 7.777473864720679808e-01, 3.084303000951297835e-01, 2.986549733615682656e-01, 8.122855554201811046e-01, 7.608130973521183282e-01, 9.296243604929893545e-01, 7.317551546214958735e-01, 9.813094337173432491e-01, 9.550330315130765024e-01, 6.903170417196626829e-01, 7.762106825789960585e-01, 1.602998243398975342e-01, 1.605331941385531869e-01, 4.886245645386408931e-01, 8.336094804907435707e-01, 3.535011366019294998e-01, 9.343325633433937627e-01, 4.801777990353333081e-01, 4.551711778929465324e-02, 9.422059006618559857e-03, 4.947017696727185054e-01, 1.274041891788901260e-01, 8.516869261235493482e-01, 6.648595089450161089e-01, 1.580842457961947056e-01, 2.274187696967607808e-01, 7.574547265985245303e-01, 6.911956906633057729e-01, 3.901845469231888797e-01, 6.451645687271692076e-01, 8.976630043965613259e-01, 3.127729756034073327e-01, 2.738053461681564382e-01, 9.057493511587685342e-01, 3.299376905926221792e-01, 5.401932569433587350e-01, 7.444058989476244337e-01, 2.236704937119285766e-02, 6.639834394639083648e-01, 3.589070320572927963e-01, 6.656003971320481050e-01, 1.075140077612197070e-01, 3.334880909507378366e-01, 4.978946168815153173e-01, 9.698354215762122754e-01, 8.884784654229698209e-01, 6.362863332884164391e-01, 5.925453583032077587e-01, 4.196297860923373091e-01, 3.303204642611073938e-01, 2.148690013860249659e-01, 2.481553268783008859e-01, 7.311915926184142656e-01, 3.119093125020676038e-01, 4.542756118107837970e-01, 4.956332403023887001e-01, 6.689127852846848965e-01, 4.856213031501336319e-01, 9.452779962870310193e-01, 1.239475788330280243e-01, 4.709823963741400221e-01, 9.374106660063992180e-01, 4.648855714068763079e-01, 7.708727790368212762e-01, 6.960669573563781354e-01, 2.729822098393295815e-01, 6.913710400602259831e-01, 3.707428585966189849e-01, 6.002968783849856882e-01, 7.397018992348736166e-02, 9.590175666454635595e-01, 7.192266249082081009e-01, 6.189251691580428538e-01, 5.140626597204759340e-01, 7.472623046530648683e-01, 6.477053289939276315e-01, 8.126683481289671829e-02, 4.626833501963066864e-01, 7.200552643315381030e-01, 6.746833192482476482e-01, 7.350527680435825495e-02, 8.063860524170212152e-01, 4.268049647413750258e-01, 1.011107439638240652e-01, 3.487820108424302679e-01, 4.879334258116335699e-01, 5.668544991493768004e-01, 8.438739056233278690e-01, 7.988364468708432087e-01, 9.780044175711615217e-01, 5.879385067258876552e-01, 9.677418244286561944e-02, 7.086760454431121348e-01, 2.163378476173381249e-01, 5.421708497182730069e-01, 5.188604099074648479e-01, 1.127530080416411368e-01, 7.372820502932093956e-02, 4.749813002263740813e-01, 5.690054963819173306e-01, 3.867398097450232552e-01, 2.714969733097889470e-01, 7.403584280530560724e-01, 7.208351471357559159e-01, 6.380110372110657790e-01, 9.532997677190660490e-02, 8.937964308670530711e-01, 1.402184692363240004e-01, 7.267110419428529644e-01, 9.018918865610852098e-01, 3.662007369140462543e-01, 9.411874659236976193e-01, 4.696093118357502205e-01, 1.901235894013022509e-01, 4.701215557915039422e-01, 8.266856290095458970e-02, 7.827495617347860479e-01, 2.007020817402044299e-01, 8.130216739102907875e-01, 2.948896515849924738e-01, 1.565458533889336201e-01, 4.066757519568650614e-01, 1.432623990711335837e-01, 6.006925553707658239e-01, 3.394523589663004937e-01, 5.156930027958838147e-01, 4.275093570630241202e-01, 3.289880980239827113e-01, 3.023266901482214997e-01, 9.102611408728473741e-01, 1.836212931685372585e-01, 4.148782533675841599e-01, 2.284269476300487822e-01, 6.518960829330723572e-02, 1.756659214951248327e-01, 8.642961579355092072e-02, 5.809501881651177868e-01, 9.243693914872936901e-01, 4.077921358560489540e-01, 2.022448366798099140e-01, 4.217560554558348884e-01, 5.324489058636679983e-01, 8.382427432630014108e-01, 5.091723503053934702e-02, 1.029807475371441183e-01, 6.615179776512853937e-01, 6.621426842916464661e-01, 8.766763073465345668e-01, 3.959349314167119327e-01, 4.187377672405204754e-01, 7.948953201389097334e-01, 3.657433524315201190e-01, 7.758881569392258593e-01, 6.477877577503260431e-01, 3.933157762600879015e-01, 3.444386496848464430e-01, 5.406684515619256670e-01, 6.764888468325472859e-01, 9.515413214187951052e-01, 9.216657391806983846e-01, 4.437114261581080465e-01, 2.698131037005707111e-01, 4.407334387331149905e-01, 9.100783088743018556e-01, 2.331677837280351773e-01, 7.363516580892973673e-01, 7.594858755830825592e-01, 3.990531965208266030e-01, 1.941902141692124772e-01, 9.742835400554551439e-01, 5.206157716373851496e-01, 1.340834926818024186e-01, 6.006858771807739306e-01, 4.687370239772268854e-01, 8.205149434889624782e-02, 8.142402641933192686e-02, 2.840790303245332993e-01, 6.967197964507662045e-01, 8.788701762139995433e-01, 4.226997960425452616e-01, 3.595177969590580003e-01, 7.319791059695198721e-01, 6.066084619247980037e-01, 6.512408464287254839e-01, 6.068716938404833394e-01, 6.329187603347306013e-01, 7.073884084664657790e-01, 9.719758318701200439e-01, 4.778121726555626392e-01, 5.242544537770334190e-02, 1.764942179159559865e-01, 6.618255149736499421e-01, 4.314302931572052552e-02, 4.721069865649973885e-01, 1.091549649046161113e-01, 8.643956253153177727e-01, 3.663687302893138542e-02, 3.894954798601481527e-01, 1.372796240487056119e-01, 2.688368135954673499e-01, 4.719131485022463046e-01, 3.957331237778475286e-01, 1.315406852597452159e-01, 5.242478309550070437e-01, 7.371316377720192881e-01, 4.962630356773235496e-01, 6.015718202065616360e-01, 1.409258888583633795e-01, 5.132135207002194166e-01, 6.645985129847802320e-01, 4.705611988433434645e-01, 1.453086525228940336e-02, 6.415066751187259442e-01, 3.098806881792889323e-01, 2.690409111346772630e-01, 9.110517799193427191e-01, 5.265686821266081230e-01, 7.086667845718307435e-01, 4.435674049491061810e-01, 6.772733567882134320e-01, 6.479479612663282539e-01, 1.784511354385051873e-01, 4.768618154697921163e-01, 4.184160120021155338e-01, 7.864602971660382691e-01, 5.103741487588447923e-01, 6.668895563413407279e-01, 4.757619998496570579e-01, 8.706874863707884105e-01, 7.378262137262202591e-01, 8.032429560505525978e-02, 6.942838133419320101e-01, 1.580541319323447436e-01, 8.854275603963416286e-01, 7.486887469796164041e-01, 3.915653930866687116e-01, 2.608633291084987496e-02, 7.365262928154300281e-01, 1.304445938845533171e-01, 9.521401529538876529e-01, 2.047824907605730882e-01, 1.978291204624722244e-01, 6.932033580881780122e-01, 4.160192603534833555e-01, 3.603666902826342944e-01, 9.242733568022583057e-01, 7.516583610238516400e-01, 6.135474842910456639e-01, 2.826839069920351610e-01, 2.277669538069098110e-01, 1.836404647003483104e-01, 9.266926821206280529e-01, 8.180051441590018291e-01, 3.402771961261341072e-01, 7.326927008569055211e-01, 9.435108123424763571e-01, 2.444516067457472991e-02, 6.923661574715005151e-02, 7.566767186711086390e-01, 8.371528655771103278e-01, 4.095090708257682621e-01, 1.961535596472586962e-01, 3.283374745804547301e-02, 2.536028326456590820e-01, 6.368996081130536835e-01, 5.623422602647163426e-01, 2.650619795489335129e-01, 3.972940390931328086e-02, 4.979300692366819825e-01, 1.184464704664486973e-01, 5.167646510890822054e-01, 7.514911616357329294e-01, 1.863670487074507165e-01, 4.104224399448636595e-01, 9.990269148299887325e-01, 7.969794352802062054e-01, 1.083329111931373712e-01, 6.542740250506534627e-01, 4.402234817327984606e-01, 2.075136767639794155e-01, 1.050317681129375735e-02, 1.628277222779857258e-01, 4.834398944618784055e-01, 4.345407911182018190e-01, 6.835169465340285022e-01, 5.764578738994192708e-01, 8.285817261630668007e-02, 4.677675003221439809e-01, 2.715414490190438124e-01, 7.394624441531081338e-01, 3.419548289781451089e-01, 3.538390948125382796e-01, 6.093776846630027944e-02, 5.084917470784210414e-01, 2.608236482439861281e-01, 3.949187835913678390e-01, 9.181320430516282105e-02, 8.985909215823805196e-01, 4.966308165057117807e-01, 9.170752480430635067e-01, 8.225471721394399527e-01, 7.021345445789216599e-01, 9.349482467251148954e-01, 9.734013104512827530e-01, 7.665099783175152171e-01, 4.023884343297558508e-01, 8.004861345130066530e-01, 9.741700285337111520e-01, 2.568447869351866975e-02, 3.895415388681456870e-01, 2.742433930980762713e-01, 6.530191381595872313e-01, 6.318746164412941679e-01, 8.290008667762517325e-01, 1.946997720270085205e-02, 3.262420651722897080e-02, 7.207722171204387074e-01, 6.743258779153981086e-01, 4.858808552064883268e-01, 9.841567200795992010e-01, 6.253166946978243323e-02, 3.817585015535107651e-01, 1.520287085942116471e-02, 6.769946574758520796e-01, 3.966450761810298986e-01, 6.305332110354742170e-01, 4.763159502948572377e-01, 3.452626361517254772e-01, 4.275522568360838327e-01, 9.113812193632722103e-01, 2.772896047095935734e-01, 1.998642836467403594e-01, 6.961127930761258353e-01, 9.948629487269100569e-01, 3.678108007531942225e-01, 3.978771014528251770e-01, 3.529171570907733146e-01, 7.483231058306694106e-01, 3.670067250566388384e-01, 3.083465737950430996e-01, 1.839614396699912613e-01, 4.296722101736731858e-01, 2.684694014012785623e-01, 3.413191517056888280e-01, 7.573498674683093457e-01, 2.002893352542159666e-01, 2.532795895807503639e-01, 6.349644360525227293e-01, 1.238986097356829935e-01, 3.340251183482247366e-01, 5.894206770096185322e-01, 9.604177493457012327e-01, 8.542645300218196791e-01, 1.487382512562555603e-01, 4.404955228784796645e-02, 3.217255750963365912e-01, 3.399016997921920913e-01, 5.469476619828942399e-01, 5.718471077395768098e-01, 8.928262361629889510e-01, 7.258203504957971841e-01, 7.452999438403021815e-01, 9.231924966124436249e-01, 2.308094739181167643e-01, 8.649030182600908612e-01, 9.299844655868279020e-01, 3.044641919558129795e-01, 4.484838281314277864e-01, 5.133680245124049302e-01, 2.986083765997929809e-02, 6.544907049341511796e-01, 1.093182197868802774e-01, 1.488998415577113821e-01, 7.582339919907191694e-01, 5.587987906057854115e-01, 4.244321942436139472e-01, 6.652642238913042405e-03, 9.715362925614854372e-01, 9.107839132011249506e-01, 3.210819157658803547e-01, 9.027726509562361557e-01, 4.208607094631366397e-01, 9.225097333203977623e-01, 6.602532282056020607e-01, 8.467565160456513862e-01, 2.600729205283801582e-01, 6.846602896929515625e-01, 1.517745454407073424e-01, 8.570274843215787142e-01, 7.068892115784677355e-01, 1.978605938969361100e-01, 2.088080165013415923e-02, 5.626753629058808270e-01, 6.838021669808113101e-01, 8.882776088413590898e-01, 9.172030332303972022e-01, 7.243928339310763409e-01, 5.203489858856022443e-02, 3.460549226128991629e-01, 3.004505817742180174e-01, 9.019905463890031116e-01, 4.009517407943957723e-01, 7.057799841573528798e-01, 3.152832366499511152e-01, 9.575378645935188615e-01, 1.420465123476464253e-01, 8.602889043616017695e-01, 5.632138249058712409e-01, 1.113147023723896067e-01, 4.829584033165221779e-01, 6.949534871969944572e-01, 8.034219265074827865e-01, 4.879911255990040386e-01, 6.667668732177584046e-01, 2.874497847159234731e-01, 4.481826340206245818e-01, 1.025598941670599062e-01, 2.054137287829426450e-01, 9.631577461686334773e-01, 1.768183428380762368e-01, 5.156202823206682551e-01, 6.704176233329227630e-01, 5.081773252219785597e-01, 4.783065553388289315e-01, 7.243768818337478210e-01, 3.532078774514365582e-01, 8.273560635668235630e-01, 9.603126783977019576e-01, 7.847012110994343592e-01, 4.622021307342470409e-01, 8.537861168564530034e-01, 3.368883289197003861e-01, 4.200063269504690222e-01, 1.077698078353666045e-01, 5.859965857112509058e-01, 8.366685780936098382e-01, 3.984988227968854213e-01, 1.385250493885939738e-01, 5.468063579127220297e-01, 1.612132341478441921e-01, 9.457207561956336717e-01, 5.464047632013189354e-02, 9.704793381120008222e-01, 2.619330494454316649e-01, 9.659381358327593370e-01, 2.640012346896583942e-02, 9.938292137127318071e-01, 3.345617819911627516e-02, 3.125582110812911707e-01, 9.040093193997675858e-01, 8.750080434173367339e-01, 9.495351890582534038e-01, 6.105430149465387313e-01, 7.521638484570977168e-01, 7.230143740864092283e-02, 1.928795827876051694e-01, 8.255772241104932796e-01, 4.496944323939140453e-01, 9.416984176519108685e-01, 6.960301884049726606e-01, 6.185580686581990673e-01, 5.355980705606293579e-01, 9.701744002346937013e-01, 9.138175639957616392e-01, 7.042549272899173429e-01, 1.195195337226278021e-01, 4.760976505176097162e-01, 9.183956877949881470e-01, 6.283653774880514353e-01, 6.051956770681244935e-01, 3.507757991221274740e-01, 9.970373219240223905e-01, 1.393627176521176625e-01, 9.933363531277381586e-01, 1.422192333936481978e-01, 5.206596300013077716e-03, 9.279758465101781706e-01, 6.476474032842651773e-01, 4.512020255079426945e-01, 8.524854524245152332e-01, 3.067221928222942373e-01, 2.275008005163746058e-02, 7.409370955365883749e-01, 9.357042285829801909e-01, 6.946620339460803928e-01, 7.781281832322687331e-01, 7.020025947231348651e-01, 5.181048417230180864e-02, 9.957569768036691471e-01, 3.759697971862485666e-01, 3.429192753243393565e-01, 5.764081093416643098e-01, 9.056648068876158586e-01, 6.763582956230492771e-01, 1.919846581725140611e-01, 4.949094367305530984e-01, 9.906454800544657324e-01, 9.018186840437276697e-01, 5.150205886622485352e-01, 1.637108681313134140e-01, 8.069125687081594167e-01, 1.795459228822962050e-01, 9.298980970460500872e-01, 6.778484362539457520e-01, 3.003570327012405894e-02, 9.415069304844458919e-01, 5.911094457089142162e-01, 3.388657393910987081e-01, 1.579264431664728352e-01, 2.548212596442349653e-01, 5.341894873407383448e-01, 8.712629229217954130e-01, 5.424841640669810783e-01, 8.803682932953552642e-01, 7.879893327694025285e-01, 9.358858332985371398e-01, 8.298364249933009029e-01, 5.580428475735670357e-01, 6.831768211467947882e-01, 6.793328265031637336e-01, 3.342652891543970717e-01, 3.623552389841294130e-01, 5.802971414060740241e-01, 8.649919797162977098e-01, 8.488701584660697241e-01, 3.227684782463022262e-01, 7.737653243914436318e-01, 3.998397609820202037e-02, 2.411572527328022242e-01, 7.204294843526126702e-01, 4.768741894058073361e-01, 4.246373079477538948e-01, 1.409716229789219344e-01, 9.108949515145315923e-01, 9.553335765097327181e-01, 1.373433907849372915e-01, 8.701457881145930884e-01, 7.786456572700843626e-02, 5.645860930628614494e-01, 6.906175516360182898e-02, 8.674014162700207642e-01, 2.834231949793241112e-01, 5.657437487003826870e-01, 7.350345964910234287e-01, 9.879396856426847506e-01, 9.244021753906327410e-01, 2.491553361104847653e-01, 3.441872341540810343e-01, 3.822508289889199329e-01, 2.273625277821012258e-01, 1.667638112264188399e-01, 2.066865188743272075e-02, 5.245499961607021921e-01, 9.599741359137209384e-02, 8.935969754437992352e-01, 3.702731119487417955e-01, 4.788524530925256650e-01, 7.926746269460872574e-01, 9.633317677285105907e-01, 8.244443387243406418e-01, 2.251182878892029893e-01, 4.818830494000148068e-01, 5.523737865951205972e-01, 5.973099536110384467e-01, 2.318602917169947653e-01, 1.005516251869668920e-01, 9.427271821513130146e-01, 5.612278686956218010e-01, 7.154203628685408267e-01, 4.511542411621511928e-01, 7.906753385513658472e-01, 5.128278899249602008e-01, 1.379151854676052280e-01, 3.056245014190444587e-01, 5.485159273096879007e-01, 1.944417351114416936e-01, 3.999607815056474558e-01, 4.990428292558728440e-01, 6.129612273342341933e-01, 6.746068580380117918e-01, 8.447814528691862668e-01, 8.516345436405182712e-01, 8.415205695884706572e-01, 7.323435553778349094e-01, 9.500688325705252124e-01, 6.706129534622868871e-01, 4.474104552326288453e-01, 2.342620569173153589e-01, 2.495754420728772682e-02, 8.501435289735239653e-01, 6.453681802564206205e-01, 7.840366385250575609e-01, 4.673312917738147720e-01, 1.956825843252502084e-01, 8.416102664821768498e-01, 3.983703408524453815e-01, 2.421184843787258234e-01, 5.628310006682072375e-01, 1.589920381359227752e-01, 5.589724173718380040e-01, 1.598458805572025021e-01, 2.918164818348537026e-01, 6.474684135586983302e-01, 6.429997946033080281e-01, 7.149360067262515717e-01, 9.797214984027351470e-01, 8.317792081959809458e-01, 2.642132050832425305e-01, 9.640594145256204950e-01, 1.141304119907087244e-01, 9.253521834002020885e-02, 7.249808420277787935e-01, 1.895960289736277893e-01, 5.401113691996120014e-01, 7.745213765068594824e-01, 5.204560682140345618e-01, 8.181816186843722249e-01, 7.987984982122633415e-01, 3.651696320838123122e-01, 8.557247969082582006e-02, 1.907676565234064370e-01, 9.748704724732734084e-01, 7.467143233776332156e-01, 4.062411746764139388e-03, 7.344812013416938123e-01, 1.179010391530814356e-01, 6.171302422224727025e-01, 7.140998004766138108e-01, 8.456482789573803727e-01, 4.916381907258647321e-01, 4.701340724897588585e-01, 4.329387144777211982e-01, 3.727154079181333457e-01, 4.924323142224896199e-01, 6.013593701920895152e-01, 5.163400028682774145e-02, 8.638022444074788808e-01, 4.345461954153704287e-01, 6.177408217129618517e-01, 4.846139831590234870e-01, 4.633896766107236664e-01, 3.506160983955536325e-01, 8.305754046261073498e-01, 2.380994653364815195e-01, 5.278704368855355877e-01, 7.205420814555039133e-01, 5.881900248224551930e-01, 4.684351496552017768e-01, 7.427329888723653850e-01, 6.732613639343748568e-01, 5.791453350425057600e-01, 8.084987860356366296e-01, 5.807925001627943784e-01, 6.404208982321943910e-01, 2.818166510950035342e-01, 5.470341656216490822e-01, 4.034629111305740867e-01, 3.041914688001323697e-02, 2.343888991991024406e-01, 1.061924478436144237e-01, 9.835803142074274197e-01, 4.553144001637385863e-01, 4.596124905347120926e-02, 1.069293375893928255e-01, 1.765576101371837681e-01, 3.557006093480839515e-01, 5.188562458449806902e-01, 7.566366710215330915e-01, 2.542899164080959507e-01, 9.746031883701932186e-01, 3.473301127519807796e-01, 9.537882720193636699e-01, 7.862246531348688894e-01, 8.041082483711395890e-01, 8.384891997223070659e-01, 1.416202045761377759e-01, 2.807165369586070436e-01, 7.440881971297104436e-02, 3.630149914218941485e-03, 8.822330383287237954e-01, 5.777484814233001531e-01, 7.966454444657269374e-01, 5.903990376157549624e-01, 1.232131502631054754e-01, 3.671470581273957867e-01, 1.006016180998881154e-01, 9.951895385926139426e-01, 1.200762472138748420e-02, 5.109109045389312875e-01, 5.907319217148774282e-01, 2.942654614305234562e-01, 2.484380833238159780e-01, 3.692870923247256743e-01, 3.410214714757590082e-01, 7.717391716161167148e-01, 8.583966650964969247e-01, 1.080034584224230515e-01, 3.005440802686574209e-01, 5.941568306615589989e-01, 4.301568236217414576e-01, 1.552435916133665383e-02, 8.948630393275561756e-01, 5.946631718624277863e-01, 1.111603007348119787e-01, 1.428595515373665970e-01, 4.907283766106558809e-01, 6.560020237355239647e-01, 8.723569247078946098e-01, 1.687588963081696203e-01, 1.214340416012087420e-01, 5.488127169591233701e-01, 1.265636374513230689e-01, 6.692845170826515755e-01, 4.436632588596925442e-01, 9.684754025761327378e-01, 1.933475562000646075e-01, 3.198369853339352309e-01, 6.193677106898167750e-01, 7.757670628571918803e-01, 8.853357627752062031e-01, 5.558445450397115906e-01, 1.333907734063410067e-01, 2.954282497043236866e-02, 5.715893901639812480e-02, 2.257527802605920619e-01, 9.120770457644988838e-01, 9.023770739876526559e-01, 2.131074968725219509e-01, 6.971682316721384831e-01, 5.427437629844140687e-01, 4.898570493806975179e-01, 3.883140756249716108e-01, 9.600644872354207049e-01, 2.612353796849913312e-01, 6.107786615690072862e-01, 3.864545619676329480e-01, 7.946612234701807553e-01, 8.930813092969331901e-01, 5.005489900088467836e-01, 8.537356459231144890e-02, 1.248932670319759658e-01, 2.473592034084498570e-01, 2.497844376375397968e-01, 4.160023104008747641e-02, 9.225060221389643766e-01, 9.983033878288615215e-01, 9.764435335748857803e-01, 2.152390094280717467e-02, 7.395591462717736597e-01, 8.829535218327290158e-01, 3.475643917129598859e-01, 8.631806785629019263e-01, 4.229602179389774230e-01, 7.452311293182045659e-01, 5.692889647831819895e-03, 9.768552780616539255e-02, 2.672694502591864696e-01, 9.917134297708093404e-01, 9.964179928903410532e-01, 5.784887833413967506e-01, 8.287114222116152007e-01, 5.043067843693209706e-01, 8.327283678809144218e-01, 8.302883643340864817e-01, 3.302678263231841327e-01, 7.370012142085330398e-01, 1.153011335963953152e-02, 1.642261961851342045e-01, 3.517402453381104910e-01, 1.827528861709216412e-01, 9.269399926351591379e-01, 5.722282706463387436e-01, 6.022502958361496406e-01, 6.669783697113018661e-03, 6.159873221215339534e-01, 9.993308892663543830e-01, 3.744569662989745140e-01, 7.710743485957829435e-01, 1.191596103919272398e-01, 7.636753237015914131e-01, 8.423385574065324344e-02, 6.530443510520699268e-01, 6.744837344504344134e-01, 8.564150129430596614e-01, 7.101507763590286793e-02, 6.010563799736032831e-01, 5.105158332511234853e-01, 1.733932446977950459e-01, 7.189236882832128472e-03, 2.622245240319910353e-01, 7.823891268254493658e-01, 7.357576470992951423e-01, 5.662009760773447503e-02, 8.528462355636839964e-01, 5.177803830668642471e-01, 2.747766125428701134e-01, 6.809943951892208913e-01, 8.783986079001794289e-01, 3.926056160683540353e-01, 2.476579520327380213e-01, 7.544472263195264317e-01, 6.446133831692073546e-01, 9.131459386568047121e-01, 5.737135172039790065e-01, 5.258602676761934269e-01, 3.870873609298947637e-01, 2.149288835494340133e-01, 6.294745193675904682e-01, 8.126312266872997014e-01, 5.554924005388063302e-01, 4.111062210038363141e-02, 9.257456143362247092e-01, 6.182513461517047393e-01, 1.148790090316509638e-01, 9.738714499909461031e-01, 1.930505116959985445e-01, 7.790315324672438813e-01, 5.951396915545277277e-01, 4.937987250385421634e-01, 9.057449100139740583e-01, 7.222823686895259998e-01, 7.379009718682675301e-01, 7.482644397671093239e-01, 3.444413412141589248e-01, 2.279311156761544277e-01, 5.560071254048875034e-01, 2.155822339589265058e-01, 6.065574945113006745e-03, 9.455552037822450018e-01, 3.963877274524326144e-01, 9.472763104954042834e-01, 7.491163668021099120e-01, 6.561594622062623117e-01, 5.311191630494307425e-01, 5.915630980343977718e-01, 7.366698267419911905e-02, 6.602621802714835342e-01, 9.545927347385519957e-01, 6.340848221053640987e-01, 3.027748266965527568e-01, 1.169481298899138766e-01, 6.953416403524511624e-01, 9.787376146163260238e-01, 9.437186065311620187e-01, 9.878192860372000395e-01, 4.336038464495453604e-01, 3.744745717532397822e-01, 5.558134209179899782e-02, 5.590737561742908923e-01, 1.253970052884542663e-01, 3.186819869518123793e-01, 8.153626463030052562e-01, 1.327212801368876927e-01, 2.918037251312823321e-01, 7.817986646641908455e-02, 1.872470374795231485e-01, 5.945873908910387362e-01, 4.241948894509808832e-01, 2.214382069867051328e-01, 6.837738621812491369e-01, 6.734841599656310462e-01, 5.209738657433565789e-01, 3.398035678337313903e-01, 3.120025668653111373e-01, 6.951150009379918060e-02, 7.985924577014478221e-01, 9.039252487837973193e-01, 4.930509145760199330e-02, 6.368078462436886911e-01, 9.426532899357737971e-01, 1.410952651436978844e-01, 2.144814006335686932e-02, 8.233208557343443257e-01, 7.081525584909446058e-01, 2.653722299457396683e-01, 5.470536259005822632e-01, 1.902226248489289062e-01, 4.992171038438685260e-01, 5.406434036027333301e-01, 4.622577173198274547e-01, 7.920908131556253506e-01, 5.278794992654420870e-01, 8.117771112661973376e-01, 3.007418923903869556e-01, 9.619539439601120234e-01, 9.433823225191655393e-01, 5.568467468519718855e-01, 9.082826683823135294e-01, 8.132103776961033814e-01, 7.689491394936074364e-01, 2.598181613111286703e-01, 2.783453121872952463e-01, 1.370054299919788721e-01, 9.129309340710816123e-01, 7.536422551603552122e-01, 9.438157949770852317e-01, 8.903017080705041275e-01, 6.480126597175971392e-01, 5.018960183585485790e-02, 6.934691201197824562e-01, 7.736846681952892490e-01, 1.038143292945010732e-01, 6.188642738785490316e-01, 3.451088165634917382e-01, 2.683461379987928663e-01, 3.326085921065765616e-01, 1.569902491469704342e-01, 8.759142093338363744e-02, 2.303063739485875505e-01, 4.066162820260526001e-01, 7.995765775173481471e-02, 3.163400618174206369e-01, 7.690902253820067758e-01, 6.235070586937357939e-01, 5.231282594342139269e-01, 8.475614731935381396e-01, 4.803640031924364395e-01, 4.810708649049154628e-01, 4.209093260180737373e-01, 6.695475663761606411e-01, 5.845068278923895022e-01, 5.511791007817257171e-01, 6.531845048248323682e-01, 6.949838915557312591e-01, 5.524500752732530717e-02, 7.960131766536944209e-01, 2.771973448293224562e-01, 5.695318254324049922e-01, 2.624424130336358019e-01, 4.975825462842015656e-01, 8.649211992883997224e-01, 2.453841146072442692e-01, 1.061192132669057653e-01, 3.897279962828998356e-01, 1.405694552696334920e-01, 7.209959379574469862e-01, 4.178586877982595760e-01, 3.295768153035490977e-01, 9.681073604063423765e-01, 3.053150062890529481e-01, 3.055569681977967078e-01, 5.233498233318004678e-01, 8.379778103400157274e-01, 7.327024220565873935e-02, 4.588019650267772254e-01, 1.594746612562514543e-01, 7.198812229972070265e-01, 9.205447876681578379e-01, 8.388782275180536319e-01, 9.834777976320291382e-01, 9.597529042907483321e-01, 6.078742164780826657e-02, 3.058550107180050270e-01, 3.496835897253234293e-01, 6.573634499921399144e-01, 9.387153864908789336e-01, 8.505753164926769250e-01, 8.837967518361039554e-01, 9.036228777391027700e-01, 5.566015733168198087e-01, 2.623623720912258150e-01, 6.461181080221010120e-01, 8.713771399034262455e-01, 5.691982920844762539e-01, 6.731161585936074054e-01, 6.617465325785801822e-01, 9.606245466259376586e-01, 7.928155046154307106e-01, 1.055262587201428737e-01, 7.646839697525926738e-01, 4.548542250485665406e-01, 2.588444204953728178e-01, 2.769808236034245752e-01, 2.012234728700098563e-01, 2.005719116976830696e-01, 9.479799761374945177e-01, 7.379301174294103927e-01, 1.115129933066931756e-01, 7.305731733357652136e-01, 4.691093329029682457e-01, 3.273246998052723455e-01, 5.346644468468939593e-01, 8.475473616373901953e-01, 2.999104724908662756e-01, 6.744024118535609791e-01, 4.327458909637980078e-01, 6.317246391804874905e-01, 5.393438063189361920e-01, 9.231325427898926517e-01, 3.473046728696900787e-01, 6.645607717632385780e-01, 6.492450486224660144e-01, 4.953409872660965996e-01, 5.070830217092856529e-01, 2.644494631873203772e-01, 1.839282685127599237e-01, 5.549167479540242226e-02, 1.942818079334891201e-01, 9.654533444628741190e-01, 6.827223081251090342e-01, 8.677062724695203677e-01, 6.135961479421918607e-01, 5.045638195118334890e-01, 8.908483221086799242e-01, 6.968976784792719759e-01, 4.930248954172673503e-01, 4.118417087460444215e-01, 2.705370704052306730e-01, 2.117999388745185618e-01, 8.289940600782009783e-01, 9.728375433984486342e-01, 9.133534858321984418e-01, 5.976621147415690505e-01, 7.052246410338371962e-01, 8.741377792970669303e-01, 1.659381223874047961e-01, 8.333340418554272544e-01, 4.138778828996331205e-01, 7.823389791777695113e-01, 5.743400572484198552e-01, 2.556953142729859740e-01, 5.511861239225646081e-01, 2.883095998266819171e-01, 7.229906832640837777e-01, 9.202978788206888083e-01, 5.072818420273058626e-01, 3.401730198793279647e-01, 3.818115873586569453e-01, 4.307145986271695426e-01, 5.723012890682090958e-01, 9.507056751650183601e-01, 4.641731085541039858e-01, 4.232731034539102266e-01, 5.081589413093345886e-01, 2.055551410431799286e-01, 8.934219641999622263e-01, 5.375132048980794108e-01, 3.221030593449541457e-01, 7.681721141774843220e-01, 5.536181851877030047e-01, 6.133887246501209534e-01, 8.981721718331853177e-01, 1.875487693186982108e-01, 2.945423515602620945e-01, 7.517762019949814079e-01, 1.671911591587531554e-01, 1.583733286803150897e-01, 6.381609055317030155e-01, 7.143526923090982583e-01, 9.085918813353661694e-01, 2.301159125465949140e-01, 9.894884478772203451e-01, 5.326733648518992836e-02, 1.984333254664917834e-01, 4.616233653895273625e-01, 3.948386458790056203e-02, 2.229226939137118890e-01, 6.332472737269257967e-01, 7.965090974116009193e-01, 1.221270718058865418e-01, 1.766806168360836038e-01, 6.109072607147177925e-01, 4.069219207679956041e-01, 5.859472494722457458e-01, 2.015264683833204243e-02, 9.173821867543621722e-02, 4.268901074945228857e-01, 9.935943638641102360e-02, 9.737424841189356028e-01, 5.382230975526622885e-01, 1.173532078425301856e-01, 4.263124181309687066e-01, 1.006282845220506650e-01, 1.347264084725349198e-01, 3.099333490366566468e-01, 8.308345192927494294e-01, 8.304939632872131439e-01, 5.873961720999337777e-01, 4.177790064526898384e-03, 3.511191164789499997e-01, 9.612892143231184239e-01, 3.447779453910391756e-01, 1.443876458987281286e-01, 8.830102866884947943e-02, 6.362011348296655600e-01, 2.302435945833519390e-02, 7.006141361767072029e-01, 3.569457533658761950e-01, 5.892293258868910311e-01, 1.536170446823839075e-01, 2.941766581468548414e-01, 2.411156374098914063e-02, 6.789153633422324585e-01, 1.898746497888413876e-01, 9.809225955970252153e-01, 7.168889836630831791e-01, 3.182273463842830719e-01, 6.541559722105972918e-01, 5.496386002003277316e-01, 7.153348674916936156e-01, 4.693111907480100320e-01, 5.065750525236532020e-01, 5.426572490488588141e-01, 5.446092912901365768e-01, 3.698104665061758833e-01, 5.172968404468185621e-01, 7.529266987266763911e-01, 8.373926954147564716e-01, 4.918071554410549662e-02, 8.460197056449371145e-01, 6.226116128240613001e-01, 9.361321623222919053e-01, 4.287003018950167332e-01, 6.243016758608167516e-01, 2.322335702800861490e-01, 3.683010061800878754e-01, 8.866454563574320824e-01, 7.974044834422906458e-01, 2.754419672036192979e-01, 7.691868468115743429e-01, 1.011299255513476297e-01, 2.416230834338086997e-01, 6.135430183402488247e-01, 7.820296457607900376e-01, 8.620509699059580866e-01, 2.399016568877844757e-01, 7.094587119922589613e-01, 7.111107510798279907e-02, 6.811148331509011555e-01, 8.320846654434853606e-01, 6.257334662168910766e-01, 4.583305682521819358e-01, 1.639594208107037765e-01, 6.622531886458042916e-01, 2.947830687830951812e-01, 2.874848446904709753e-01, 5.293077806866125501e-01, 6.583021834699069874e-01, 4.435917435638740969e-01, 9.179408526303730609e-01, 8.409467419442362424e-01, 6.144008804961633707e-01, 8.955899854337903143e-01, 9.305312691121847557e-01, 9.378207268810501152e-01, 7.790487228015061660e-01, 3.578667131730590978e-02, 2.765801506638979612e-01, 3.781155343159529059e-01, 2.952749931518336424e-01, 4.743564244006683861e-01, 2.857238091648109934e-01, 4.257034309072174616e-01, 3.996537376954440446e-01, 7.285255161026613635e-01, 7.710698429914575325e-01, 4.877382056921246711e-01, 4.268788873776910853e-01, 4.820679657523576078e-01, 9.622039705927608599e-01, 3.619645680256573517e-01, 6.226813944518939659e-01, 8.139688043226173120e-01, 6.990150590216875903e-01, 4.771305344104162516e-01, 5.324991164079453387e-01, 2.408470807721234674e-01, 3.586996180268587908e-01, 1.641667513198928896e-01, 3.815114717580371240e-01, 8.225784958877815356e-01, 2.787399707311952746e-01, 7.195146838051198479e-01, 2.109279283564308438e-01, 8.052643154329328645e-01, 3.687023805137280008e-01, 2.533038646963401419e-01, 8.271657723037385557e-01, 4.204756234812234150e-01, 1.870902339925423208e-01, 5.363130240341816846e-01, 1.525274864192033841e-01, 2.558413585497438802e-01, 2.555530267268835143e-01, 9.154556895140288919e-01, 6.049370929238014893e-01, 6.818140712721483254e-01, 9.837883771002395861e-01, 5.844935176268520882e-01, 7.894996073915296897e-01, 7.099772154332982810e-01, 9.794679300032836933e-01, 3.517997127224776199e-01, 6.012372771558645024e-01, 2.192616853826722945e-01, 5.531254104062686139e-01, 6.973197802699752090e-01, 2.938313973076619318e-02, 4.347350018727645926e-01, 5.327604761946345135e-01, 1.144041925292478140e-01, 1.317368914264547275e-01, 7.142011050038153952e-01, 1.466849180996542268e-01, 1.279552074663462546e-01, 5.229297766316971519e-01, 1.886620069605233346e-02, 4.308784601991644259e-01, 8.496377586799740422e-01, 1.361686002219005820e-01, 9.654534195429528287e-01, 6.153192972579766273e-01, 1.157318652922259827e-01, 9.816836703856237634e-01, 7.685180999217608999e-01, 4.949513367867044433e-01, 2.832604590308368531e-01, 6.252856431148756666e-01, 3.947997175887905663e-01, 4.002993373390469900e-01, 1.567625733599083693e-01, 5.578352646940798465e-02, 5.368279823969300812e-01, 1.831999330418631056e-01, 5.272827391779369988e-01, 5.132776662677562829e-01, 4.722537960617666508e-01, 9.915530875932343502e-01, 5.267565565086947954e-01, 2.953408801478946688e-01, 5.302332414532501259e-01, 6.820502456591159834e-01, 6.787142364886477042e-01, 1.971015608985662859e-02, 1.283088210133940255e-01, 2.846717058878055484e-01, 4.185345440745950052e-01, 3.209053845937496208e-01, 9.745896278666243973e-01, 8.242516625416059783e-01, 7.627003333488135972e-01, 1.155952974959514323e-01, 8.417985630241443806e-02, 6.748621091094021418e-01, 8.764722897032948268e-01, 8.553354063493969761e-01, 9.671152260924325006e-01, 9.205049209339295768e-02, 2.102462549267137826e-01, 3.651061190889833830e-01, 3.842051985302560313e-01, 6.521927131125331289e-01, 8.400345492378294976e-01, 2.823690965178552448e-01, 5.809191103943053130e-02, 9.084112045378236466e-01, 9.403892574369260293e-01, 6.861921676847210216e-01, 5.511910511520284883e-01, 4.617181324586688840e-01, 8.472520835950256846e-01, 7.847396313911294066e-03, 7.478021383919747356e-01, 2.741480386751742326e-01, 3.770488052261787848e-01, 6.266111074379419055e-01, 7.999278264597823318e-01, 7.380681928330108388e-01, 9.061288596511154481e-01, 8.288083362188679581e-01, 4.796565038960922123e-01, 3.588819585601948914e-01, 8.268678276697417617e-01, 4.174191155313092087e-03, 9.971379369583350805e-01, 1.845503081745966389e-01, 6.927124931988570822e-02, 9.544663468943179740e-01, 2.032299718912880526e-01, 7.365217236178296378e-01, 7.481333267347904936e-01, 7.472188263967420585e-02, 2.490635576677136323e-02, 3.882325011937685644e-01, 5.160279133746017433e-01, 8.467304402042027389e-01, 2.361647355403722615e-01, 7.593557271746421700e-01, 5.997223995722709144e-01, 6.775368966404823334e-01, 2.631551534247363877e-01, 6.600088282276315998e-02, 6.179029921550431848e-01, 9.044980878304821337e-01, 9.215947901366768891e-01, 4.708243007883547993e-01, 6.980524734328299452e-01, 1.037759985858050099e-01, 7.736847520724426941e-01, 2.513307776129632964e-01, 3.421645606074998347e-01, 3.368953074084810040e-02, 1.798729802888054674e-01, 1.309162862426559992e-01, 7.482063763349977581e-01, 6.229439209115802401e-01, 6.439261469064680998e-01, 8.361493080488586749e-01, 1.594317269104754686e-01, 5.164236749453949837e-01, 6.132113758659643032e-01, 5.884221872550826626e-01, 3.466914503788572910e-01, 8.441320619673284842e-01, 9.751119449543556306e-02, 5.595846994193568458e-01, 6.898559262375709711e-01, 6.909743940493340286e-01, 9.546568746837194031e-01, 5.051764807868037721e-01, 9.432186449295560937e-01, 1.577171599101195587e-01, 9.185370188624150112e-01, 4.197113948680001455e-02, 8.402794949169053451e-01, 2.507594880558754458e-01, 2.770148899009107768e-01, 6.012861393742723326e-01, 6.918456199631063397e-01, 8.309020084836771236e-01, 5.925681624969223460e-01, 6.360274945635724375e-01, 5.013444003920893843e-01, 4.587516558740674100e-01, 4.158093413676701156e-01, 3.546350102284205330e-01, 8.776423309357634928e-01, 3.149361348010438211e-01, 7.118821275477995592e-01, 5.342917362232977307e-01, 2.324989669624619448e-01, 6.311947086427446285e-01, 2.581952293636298745e-01, 5.536290989990212408e-01, 4.696989375835681768e-01, 2.835329582559829587e-01, 8.928754800459240970e-01, 1.237790025163337804e-01, 7.030020681558647455e-01, 7.955569408078901061e-02, 6.799783176049337685e-01, 3.743000028167267068e-01, 1.700225968478434047e-01, 7.431791133772619462e-01, 2.349615377787049597e-01, 1.555106252045931614e-01, 6.137629776771504758e-02, 5.816398336042575279e-01, 5.946309141543806298e-01, 7.778515135719129558e-01, 2.030290321633518580e-01, 2.871174435828215410e-01, 6.756286652138202564e-01, 5.123101365792346318e-01, 4.458882164616308486e-01, 9.512853489439870858e-01, 6.112325836900542875e-01, 8.487246355571611556e-01, 7.771699154867273140e-02, 3.796614184183213503e-01, 7.407339918008248869e-01, 2.788196412965620596e-01, 2.737223613396263522e-01, 7.513035539428679632e-01, 3.383675880811686798e-01, 8.168992686069584952e-01, 3.778354920272844475e-01, 1.705976547977755553e-01, 2.268117255123563991e-01, 4.843284384540699206e-01, 4.925612695711560907e-01, 1.034840320028663010e-02, 2.552691496771300472e-01, 6.251815059703398347e-01, 5.970254511902552963e-01, 7.696457183993831164e-01, 4.128811363526156963e-01, 2.623366548738764181e-01, 5.491059695545321695e-01, 1.987136223156028003e-01, 7.409997797406195907e-01, 7.958029328080666875e-01, 1.684762860341487145e-01, 6.164545710907484155e-01, 4.239949458422307971e-01, 3.513376526269662570e-02, 6.698147818956996513e-01, 7.838644091498605526e-01, 7.947775624005709583e-01, 3.117483356188489596e-01, 3.825605621509102772e-01, 5.177689399538326631e-01, 9.079375916463514606e-01, 9.247601265352900501e-01, 2.755699434254016422e-01, 3.586434255427323747e-01, 6.704873439456193740e-02, 4.769204213133907966e-01, 4.404484049548046953e-01, 7.891028477566984778e-01, 8.794883750312986193e-01, 4.881789786364887362e-01, 1.113591282009902539e-01, 5.215769413293236401e-01, 5.821057199411207028e-01, 1.958962102232488789e-01, 7.908900781874691477e-01, 6.402906805569742454e-01, 6.749967580181559512e-02, 7.985424829689254933e-01, 3.688833519638333724e-01, 4.318858801918786239e-01, 2.306064672227131351e-01, 3.299787422787233138e-01, 1.157102872318081649e-01, 7.956248840778583631e-01, 3.110338767411399761e-04, 1.397552016019590615e-01, 6.832866696470106804e-01, 4.376433630409902187e-01, 2.764491385468623164e-01, 7.216690914679291247e-02, 1.532974460410458338e-02, 7.652503439902847981e-01, 3.328234036657718442e-01, 3.316320745578412721e-01, 5.410600656059345592e-01, 6.644306961892497698e-01, 1.155448199378379809e-01, 7.524232132959700614e-01, 6.238345210760944948e-01, 9.301259657790857949e-01, 4.000225886870947267e-01, 6.572671658661309868e-01, 4.167283002437519035e-01, 9.928814776196449865e-02, 5.466077714425956469e-01, 7.936584822942092110e-01, 9.796253538918973103e-01, 5.223407963087391970e-01, 7.665183365154921713e-01, 6.667407335596606810e-01, 3.707245716565502613e-01, 7.614730194535956898e-02, 1.330310154500560504e-01, 3.637334826416159794e-01, 3.791394296788919704e-01, 3.694067296109908582e-01, 6.887681369844439461e-01, 3.264971977508043244e-01, 3.278134325313536990e-01, 4.776818004297149201e-01, 4.738216931155602163e-01, 1.186150054418744909e-02, 1.567391735789449014e-01, 7.942563236635112878e-01, 3.733481768489889663e-01, 3.235277178335626003e-01, 2.091688117185717122e-01, 3.993445492247494899e-01, 5.433753002030347057e-01, 2.197217319010794645e-01, 1.439109634238877611e-03, 8.778765266852832649e-01, 6.764559039808911711e-01, 4.501013136603490006e-01, 8.717108271064990532e-01, 6.425812669172922265e-01, 3.860466444968139177e-01, 9.296686681029059374e-01, 2.798310846819941911e-01, 5.290501865755972144e-01, 9.729714570108223270e-01, 9.767089637683860071e-01, 2.495404506617804330e-01, 9.332913807359166647e-01, 6.131996339336586166e-01, 2.679748660397158755e-01, 9.087371677429644246e-01, 6.150763047064048417e-01, 1.526821546282904896e-01, 4.256587265685728982e-01, 4.002004664733802564e-01, 9.904898004843311066e-01, 3.810173403644032120e-01, 9.986415160374721989e-01, 8.332562870983589720e-01, 2.455723642177051191e-01, 4.546664713216833076e-01, 4.100136261676115557e-01, 7.751596419164914487e-01, 1.721730352323938840e-01, 6.734606578521983300e-01, 4.435517110489380910e-01, 3.832133256811289246e-01, 7.649741636920163179e-01, 8.128466220232239969e-01, 7.366823745308287430e-01, 3.585934182924013225e-01, 6.853863470128224167e-01, 2.628683809546519812e-02, 1.030432147926613196e-01, 3.046512088736706425e-01, 9.886555664711578484e-02, 4.962202727258304552e-02, 9.679766148054400610e-01, 3.143908055306783300e-01, 1.226081210505032826e-01, 3.742139836151432419e-01, 3.766409600486559928e-01, 4.280589018944485069e-01, 9.626570419661611977e-01, 7.912443269350563080e-01, 6.418005905329977612e-01, 4.164799732257107867e-01, 2.849406147471926221e-01, 4.699521644434564993e-01, 7.332789665442396299e-02, 1.307455011587266291e-02, 4.100707625332468131e-01, 2.248752714297097555e-02, 4.689578477310911708e-01, 1.426586052471119637e-01, 9.953363512136972346e-01, 6.847599511944274520e-01, 5.905326728927529079e-01, 4.893624614447524696e-02, 5.007869644390405828e-02, 4.421791451897927883e-01, 8.163628862720883061e-01, 1.883363072486251011e-01, 7.415135485784687397e-01, 8.353921272906007500e-01, 2.178009748486831321e-01, 6.043717841591678130e-01, 7.982232977464344126e-01, 4.440306273109356772e-02, 1.304523448318497536e-01, 8.881263861569062973e-03, 4.111457577710520006e-02, 1.190110724694207756e-01, 4.053207313822665414e-01, 5.273109911561385532e-01, 4.239419820503042557e-01, 8.808715788780120404e-01, 9.354898304303272960e-01, 8.338769441263692572e-01, 2.432440054496821380e-01, 3.530217907319659898e-01, 9.925120457868666923e-01, 5.452396263554437628e-01, 3.630249448072673246e-01, 2.493331496617718634e-01, 8.289354224821292583e-01, 8.108405659514519304e-01, 1.450335355999371745e-01, 7.763608923518107163e-01, 3.133154641305330723e-01, 3.719334395737055043e-01, 6.923570290472933486e-01, 4.971728573307277466e-01, 7.868984108610670436e-01, 9.002387456293794443e-01, 7.827081848062453773e-01, 9.071548408929303031e-01, 6.140748837228082735e-01, 9.941409406148786765e-01, 2.857926243655752319e-01, 4.813727765804544090e-01, 5.303984825816934201e-01, 3.080280219453657153e-01, 3.598995562862421504e-01, 8.295093380950480100e-02, 3.225293845851081587e-01, 4.478705863975523394e-01, 9.661037059305965791e-01, 9.440784569939851822e-01, 1.801472468141307737e-01, 6.618761906937654649e-01, 4.562538987032821458e-01, 1.760997544976206086e-02, 1.749146866272326406e-01, 5.609927331223270031e-01, 4.933594820634326084e-01, 4.896167041547366816e-01, 3.973710617018300084e-01, 4.029928834146537797e-01, 7.847716529554216169e-02, 5.831731697190057906e-01, 5.425142079671638751e-01, 1.358010703968623722e-01, 4.642348105283738424e-01, 1.151395158605586638e-01, 7.861365648980757070e-01, 7.246570855440043202e-01, 8.855886180039301836e-01, 6.917423737902518299e-01, 2.897374121935070712e-01, 6.779396969461268796e-01, 4.851641757098528740e-01, 2.835007036794768842e-01, 9.304668287584924036e-01, 3.419544806348615573e-01, 9.905216326540382532e-01, 4.174408283524687069e-01, 5.679320392700818454e-01, 2.774113396082905081e-01, 9.024116117544225268e-01, 5.035657075301892549e-01, 2.728651317661539011e-01, 3.093883512293707505e-01, 2.738938242764242803e-01, 8.676046862773449941e-01, 6.403803468033099078e-01, 7.364676547534866335e-01, 5.316058231886553603e-02, 7.897717640367415415e-01, 6.737551819882428017e-01, 4.514764500947894832e-01, 5.326219026499778852e-01, 2.944275178847457486e-01, 6.821543651161355859e-01, 3.719009932814728581e-01, 7.618525491143915973e-01, 1.837826974243261524e-01, 3.099402604760976288e-01, 3.361291412805181844e-01, 7.175469696013228038e-01, 3.797095666413641268e-02, 6.506526921990170020e-01, 9.946201716819448313e-01, 1.080118904907326899e-01, 4.761860518878410220e-01, 3.859395513594486293e-01, 9.778089822459423708e-01, 9.216709946035799295e-01, 4.329748508224109393e-01, 2.983911314163276152e-01, 7.047947523741134868e-01, 7.432592257007986092e-01, 3.476757567473363619e-01, 5.349929261704770012e-01, 3.348387316967670890e-01, 9.450034400042703897e-01, 7.215066637712314046e-01, 6.843310197907418457e-01, 4.319825645811972148e-01, 4.538801538325473728e-02, 2.273635757732085094e-01, 6.918057844237560650e-01, 9.323252501944138126e-01, 1.261026943393771527e-01, 5.313079016026411860e-01, 1.318777762592663050e-01, 6.115157591562843109e-01, 3.068439900909387119e-01, 5.112186093993922320e-01, 5.412322893042827987e-01, 1.801556127037634014e-01, 8.342201016086251419e-01, 9.167718706420344699e-01, 5.368873070849161655e-01, 9.817628029482152741e-01, 2.042359881181031733e-01, 6.265324574232742361e-01, 8.604515947720028368e-01, 4.982533456278201434e-01, 1.343180372485419660e-02, 6.273991646236176667e-01, 8.422174254770520285e-01, 2.311918015900558260e-02, 7.046601749346247390e-01, 5.179592089459696957e-01, 1.773702493430172611e-01, 8.060409801509778316e-02, 3.733152436019168130e-01, 2.337587477416853965e-01, 9.595800380335194335e-01, 8.113096389044250900e-01, 2.552753900759219818e-01, 5.460564951106777754e-01, 9.125279689880796408e-01, 3.517053145156179284e-01, 1.641631967215077537e-01, 7.894786911718830735e-01, 6.899122334764050679e-01, 3.290903609924599182e-01, 1.953161395731279892e-01, 1.444771850940687052e-01, 6.182790623320504331e-01, 1.570360536032501808e-01, 2.720649675675579360e-01, 7.825896722246754589e-01, 3.368933964728582087e-01, 7.120929612714850254e-01, 4.574345038858135259e-01, 7.784749979138393394e-01, 6.620767267883116425e-01, 2.692996660710467172e-01, 6.086976773606072033e-01, 4.152592760155129209e-02, 4.387039367775327214e-01, 5.691988044665683422e-01, 5.926980237611553237e-01, 2.373421226967560305e-01, 8.685869477005062622e-01, 6.983198343719653201e-01, 9.857866029769094540e-01, 2.455273236466087861e-01, 5.105795683994058809e-01, 8.171903323266974661e-01, 2.422292089416677174e-01, 2.881151137887392744e-01, 2.374864138346864384e-01, 4.490162514346310307e-01, 8.714082645914678071e-02, 7.580243541019232589e-01, 7.490887784123231308e-01, 4.587812759610670477e-01, 8.619023992388434863e-01, 2.892084597861248607e-01, 9.480838222860956677e-01, 5.576673024736584772e-01, 6.496480903713056643e-01, 1.146710094304565081e-01, 4.860194200901002404e-02, 6.710808561745075229e-01, 8.997702165421316289e-01, 6.109991294780460214e-01, 7.532059400431385943e-02, 4.752465323910901041e-01, 4.738633823201859885e-01, 4.641583128990537932e-01, 9.447026645957866675e-01, 2.819099605076129111e-01, 3.471262065424568499e-01, 4.719308831959224682e-01, 7.059549822314281631e-01, 7.230027925730231342e-01, 8.923435080086953297e-01, 3.634359916745684149e-01, 3.637455320476107312e-01, 7.619436844893698879e-01, 3.916339085171899326e-02, 9.458335449791881455e-01, 4.548382324700928070e-02, 9.885123627770183719e-01, 2.575689177367661564e-01, 5.366097830812176506e-01, 5.320159931449792712e-01, 7.610380432320719146e-01, 6.173611565607530771e-01, 8.256157735760180083e-01, 9.111969752800279654e-01, 7.549723908848123832e-01, 2.476068893741462940e-01, 1.876187361699458434e-01, 6.267044642678425426e-01, 4.991303442524909761e-01, 6.256249498696889733e-01, 3.997531318557115410e-01, 1.332867219928381142e-01, 2.426474386954999007e-01, 8.429665174948004491e-01, 3.810737894824101635e-01, 7.608942992452880638e-01, 8.597889136429051060e-01, 4.726691935173751302e-01, 2.381766024119418290e-01, 1.521915118325558036e-01, 4.023014888812946610e-02, 6.749050817214313769e-01, 2.723845905277171298e-01, 9.571906220278249278e-02, 9.962749819197813661e-01, 4.813379221404980313e-01, 9.272779586873067803e-01, 7.633365255938360239e-01, 7.704136964324072023e-01, 1.935052980693033331e-01, 1.824530402136588791e-01, 6.785283313534871130e-01, 5.164721746077260978e-01, 7.281561426475462451e-01, 9.211578153315919115e-01, 4.092915464313769958e-01, 2.312299023772188544e-01, 1.056969869591295880e-01, 5.636531196586145320e-01, 1.136389569726820037e-01, 4.740325804825029077e-01, 7.080963194516241010e-01, 7.510442880414571754e-01, 9.918818661720051333e-01, 3.393498247944119472e-01, 9.364123965753554657e-01, 5.990005056318867815e-01, 1.524425166265550302e-01, 8.374267590281613272e-01, 5.877110424864782079e-01, 7.672650417782267418e-01, 5.213433606112712893e-01, 7.888603390394350878e-01, 8.116671887889661541e-01, 7.228878191901154660e-01, 2.817629365228124794e-01, 9.415832309977257841e-01, 7.400344906454600080e-01, 8.826722058211293742e-01, 9.134646106639842111e-01, 8.963406607919565117e-01, 5.988518523045952557e-01, 5.400291333514347647e-01, 1.917604992238538530e-01, 2.876951671432964042e-01, 2.483474161431514782e-01, 1.779147139336623162e-02, 1.962596887567907011e-01, 2.847640765602147961e-01, 8.439003558065650834e-01, 7.894616884328251594e-01, 6.134375239886928899e-01, 4.201330898535166058e-01, 6.934025237656582519e-02, 4.166305467352905412e-01, 4.194707569581306861e-01, 4.342576051367123130e-02, 1.807919066419416132e-01, 4.124474106060248002e-01, 7.153427213071031354e-02, 1.318959272130255655e-01, 4.531102461973178785e-01, 7.202519335358084085e-01, 8.826141691067265760e-02, 3.967021487713833228e-01, 3.339184134191417463e-01, 3.351466481991471347e-01, 1.606603415770529453e-01, 4.175152413658730355e-01, 6.997962928096608248e-01, 3.987726728009878263e-01, 9.728438441035889284e-01, 3.799024021451713473e-01, 9.691614236085541734e-01, 1.442150584061154817e-01, 5.936090399620311819e-01, 3.538031457979139427e-01, 2.679971988364389726e-02, 9.763040342033840746e-01, 1.049163596423299261e-01, 9.472281067125788434e-01, 9.990229599438502639e-01, 8.754546184396524433e-01, 4.409017317711899087e-01, 5.854423673903711434e-01, 1.130577003343639919e-02, 1.201083682724785190e-01, 2.620550993866833100e-01, 2.199432493619641049e-01, 2.658256367373790230e-01, 6.442502820307677291e-02, 2.662226379010849686e-01, 5.674193491354295737e-02, 6.847663899920158892e-01, 6.875980960583526203e-02, 6.858533038876649668e-01, 6.178563225033252282e-01, 8.448777916410860067e-01, 3.550063724190861136e-01, 9.081584661082806598e-01, 2.672928137439527507e-01, 5.513755472214785236e-01, 8.581563157638522066e-01, 8.306585324583194430e-01, 8.054592271540317316e-02, 1.659043628172166551e-01, 3.874884631238789123e-01, 6.094236898165021898e-01, 4.990224307635544587e-01, 8.751280157420361361e-01, 2.697099708951072872e-01, 4.069440005966328266e-01, 2.428002071029303488e-01, 9.146662217286700702e-01, 4.030411364072594704e-02, 6.031372675451409648e-01, 1.377107193661464279e-01, 2.497350479962575920e-01, 1.072082418692158062e-01, 8.572794722340337792e-01, 9.991312063824724365e-01, 4.621389970711811679e-01, 6.605665325759070561e-02, 5.146023997030463315e-01, 6.396560136818880693e-01, 4.608463507244175972e-02, 3.751945555967757251e-01, 9.788918780172521823e-04, 3.181512671657985569e-01, 1.049274016514410296e-01, 7.552460062176128419e-01, 4.086963077825963020e-01, 1.735856235252850044e-01, 2.141536312899792183e-01, 9.316776844593106510e-01, 6.515281340325026482e-01, 5.934550261733353427e-01, 1.923015485120783685e-01, 9.248970534801499443e-01, 1.216862099431149646e-01, 9.925430496019727045e-01, 6.000072995412072396e-01, 4.778360553239058839e-01, 6.540629391537854387e-01, 7.251232819456494560e-01, 9.623660731182562822e-01, 6.747083203449038002e-01, 1.775263483812988263e-01, 7.254553352212375628e-02, 8.056849388307174564e-01, 9.804041642292959935e-01, 8.582681338978441765e-01, 7.788450727712656896e-01, 3.167747321833124241e-01, 3.088012421233535254e-01, 6.612583818956335735e-01, 9.613595393992603322e-01, 7.352668359855119018e-01, 6.487730223918414252e-01, 3.823455145617460915e-01, 3.167863823621079322e-01, 5.676924579362331302e-01, 1.293709227529092620e-01, 2.596440007813738404e-01, 7.522171288443094683e-01, 9.645441604991448203e-01, 8.143214462327537095e-01, 5.558903480621495419e-01, 8.980344251521974464e-01, 5.939053959834040830e-01, 5.805513332570858553e-01, 7.449012630626529186e-01, 9.598691532096752244e-02, 5.504900308902582751e-02, 3.290251880313556643e-01, 3.959496568978851383e-01, 4.593902814383276634e-01, 2.184757512029982252e-01, 4.041578880496697890e-01, 8.178249254555891579e-01, 2.023223755734528950e-01, 6.673597268391666670e-01, 9.084345153225242830e-01, 9.887910218261909412e-01, 2.170559878789199149e-01, 3.654126090249668612e-01, 1.823311796409327334e-01, 2.934774086366516710e-01, 8.240497857878914534e-01, 6.945900460167361290e-01, 4.521173585701032671e-02, 1.783339937427381450e-01, 6.524233376516804794e-01, 6.020078175308589685e-01, 9.220555389331378526e-01, 4.339557997001564082e-01, 7.703710518742747926e-01, 7.252447495259048971e-01, 5.869043603106024465e-01, 9.132497351189687862e-01, 2.049981838930489408e-01, 4.344616518577230080e-01, 6.496809685814449731e-01, 4.446624468337463665e-02, 3.421750623560530502e-01, 9.932450830722147073e-01, 8.306798316956089945e-01, 2.871929911934096302e-01, 2.015556672621899095e-02, 5.940927539521185796e-01, 2.524619597454056952e-01, 2.341516472352587197e-01, 6.905752893063277220e-03, 9.983313470606421935e-01, 8.717911715786847981e-01, 2.874487930593967455e-01, 8.986631714542249183e-01, 4.156289407691308169e-01, 2.733111123696123634e-01, 2.826083125982414845e-01, 6.031769915023681428e-01, 9.194895613515254862e-01, 7.441215501892850526e-01, 3.111071700598965761e-01, 8.025293987330288648e-01, 4.837919210477057419e-01, 2.217090691297663174e-01, 4.665499010080144671e-01, 6.710002815727859060e-01, 7.203404085256466249e-01, 5.388209243083804528e-02, 3.277075976462129892e-01, 4.556866560733535687e-01, 6.403845986124425682e-01, 2.657481601548134509e-01, 9.716066158342016035e-01, 8.144914751135077235e-01, 3.826886107477170396e-01, 3.370705635216483254e-01, 3.111542857658418093e-01, 7.356594984028361761e-01, 2.901699989549368364e-01, 4.895094940952863238e-01, 1.564182881681253729e-03, 3.058518910893910370e-01, 5.497624385401023162e-04, 2.739464108661748831e-01, 5.056839660095638900e-01, 1.251458940095120376e-01, 2.396206532871444639e-01, 2.857946670935133104e-01, 5.858947380224354129e-01, 8.037186600218179100e-01, 6.473435899114898806e-01, 3.032178947936584601e-01, 5.842746015838425899e-01, 6.470237301584648160e-01, 2.692441773185623721e-01, 5.473008563431758233e-01, 9.723002372340701083e-01, 7.708787958425368236e-01, 6.966970946231171302e-01, 5.473147202569096370e-01, 9.959596882037659027e-01, 2.431004218604937428e-01, 1.112555371176122826e-01, 5.197506410676219213e-01, 4.891415755451917757e-01, 3.325656008954065435e-01, 4.070306933455977716e-01, 5.390976989504893124e-01, 7.058811446967755421e-01, 1.252155659477998673e-01, 5.440843758767831551e-01, 1.735483521824120468e-01, 5.303408812327102817e-01, 9.452229991829633748e-01, 7.684869217970570210e-01, 3.312128774091751549e-01, 3.251920886074688433e-01, 8.097320261187644919e-01, 7.363125609159115736e-02, 7.558588214565117175e-03, 1.819411485029991671e-01, 5.296531024521191622e-01, 4.517415745177267294e-01, 6.378326669832796725e-01, 1.115564036225928923e-01, 1.054452289918799551e-01, 6.204288715898658157e-01, 2.509064020329462297e-01, 2.474976635359256161e-01, 4.866877146074551352e-01, 9.179373260751413355e-01, 2.578014770918679588e-01, 9.079779468975429646e-01, 4.083595843609224563e-01, 9.570771479200880227e-01, 3.718755614059620629e-01, 3.451658878723840584e-01, 2.769011087205592858e-01, 3.279161192201753006e-02, 8.905660619023900715e-01, 9.554044170714707240e-01, 5.762014506096483357e-01, 1.773816130821053161e-01, 4.726822571456561484e-01, 2.580336244931018611e-02, 8.595316361445476394e-01, 4.296014757913257376e-01, 9.084232940588666816e-01, 6.650064279427559955e-01, 4.829450819033189596e-02, 2.502205662573508960e-02, 9.095621101535675823e-01, 8.371742712067515857e-01, 4.066074722176145073e-01, 6.686473727618398311e-01, 5.672779088471424647e-02, 3.713608171394366941e-02, 4.464905234933305711e-01, 1.265308052273164119e-01, 3.465755424850537891e-01, 7.206714761333922470e-02, 9.037743618143523339e-02, 5.552913256902204386e-01, 4.435738970878311260e-01, 2.758586903346580410e-01, 6.250411742457795405e-01, 4.563279492563324657e-01, 3.486405095917176067e-01, 2.397881227170068907e-01, 5.852630433605219284e-01, 1.238129734043423857e-01, 9.848730405304853552e-02, 2.730825139634024401e-01, 3.838873709391674716e-01, 8.673775696943087921e-01, 1.969092828257905659e-01, 1.080640443568893633e-01, 6.785979548454460497e-01, 6.929931745739427162e-01, 8.125536944662694605e-01, 4.119154083004394895e-01, 8.158814642822999064e-01, 5.975044354393302948e-01, 3.130814767440351920e-01, 5.790555493990132696e-01, 5.274516308299651568e-01, 7.824663746315114743e-01, 2.351668004305853266e-01, 8.054969075688500624e-01, 2.986284148423219431e-01, 6.592748812466412422e-01, 5.457647862733073785e-01, 4.649009220415799559e-01, 5.022608681022656674e-01, 2.461284246746595628e-01, 4.189641971293276979e-01, 3.550962702011657424e-01, 4.833895557726878289e-01, 9.405103130207725926e-02, 5.927024030195893189e-01, 9.124957642270544733e-01, 1.061702529662834626e-01, 2.362156294351340780e-01, 7.467455461710348352e-01, 3.709116403335132595e-01, 3.353073294626404133e-01, 2.088046356012126514e-01, 2.162572816824761268e-01, 5.053800770930063635e-01, 7.265270375218217946e-01, 7.066738405387104072e-01, 9.357846402747052039e-01, 4.110069476545471501e-01, 4.192654379117309871e-01, 7.598765731641619059e-01, 3.894280514630903411e-01, 5.774370899294073434e-01, 9.781835375021132872e-01, 4.834749393758529523e-01, 5.051121158429151548e-01, 1.190475103975278948e-02, 5.371552111595374601e-01, 5.277700184336648892e-01, 1.753544287967525594e-01, 4.787134877738075667e-01, 5.456560530686238586e-01, 5.812034613165015795e-01, 2.286348154076327244e-01, 2.193039978413613422e-02, 8.178593485762554183e-01, 3.505843897995342129e-01, 3.283580840856817340e-01, 2.686414845051812161e-01, 5.056283204580803714e-01, 2.048815351033415888e-01, 7.796218009912394553e-01, 3.138394883252432210e-01, 3.782062268420354756e-01, 4.914905678271398043e-02, 1.862778762499491259e-01, 4.705654896522117325e-01, 4.959788282185566555e-01, 4.964654974951621114e-02, 1.806526738806548682e-01, 5.441333645597696833e-01, 7.904384021913182234e-01, 2.617982959971003609e-01, 5.893225929348205189e-02, 1.963054675069529631e-01, 2.424556319120208803e-01, 2.877905921571353720e-01, 2.889706847838457437e-01, 3.052126539042714359e-01, 6.387433501706880623e-01, 2.314502877932256564e-01, 1.754560214913976901e-01, 5.785900786260348427e-01, 5.330951150952724094e-01, 3.185536139167841618e-01, 3.267826809366765617e-01, 3.334227090367287705e-01, 2.357506977004472093e-01, 3.107701816091868949e-02, 4.772943740717847660e-01, 7.313663161617822706e-02, 9.391874888397161447e-01, 3.131981147672475707e-01, 6.218583745808264895e-01, 3.798405697496586297e-01, 7.446733869708578313e-01, 8.777581897972466241e-01, 2.243805322055902884e-02, 5.968737632482893352e-01, 5.357017916074383601e-01, 7.152154319064141230e-01, 3.270039430397533309e-01, 3.489567568916370210e-01, 9.494852038486122359e-01, 4.696952206291536980e-01, 4.219063866136732455e-01, 2.492708376675917548e-01, 9.009541402734384530e-01, 2.279732444988764595e-01, 4.669232172536423864e-01, 2.013283089255246683e-01, 9.932046265564536958e-01, 2.412195158502947467e-01, 6.328930621939936607e-01, 1.660285214657090114e-01, 7.359754844789989647e-01, 1.131615237937712432e-01, 6.047714645736608219e-01, 6.787921608729911016e-01, 4.912426225864420237e-01, 6.566993150028145321e-01, 3.061116813270623460e-01, 2.002341560920234409e-01, 4.861216194513637290e-01, 4.408843302342139170e-01, 3.135743376020998507e-01, 2.665693364976111646e-01, 5.165505780670617275e-01, 4.581002594065650135e-01, 8.571978765581450554e-01, 8.569000726718511984e-01, 6.056199137880365901e-01, 6.894868925407449112e-01, 7.860103009964337917e-02, 8.928629668030783062e-01, 9.567838393744594327e-01, 4.802292225857704433e-01, 7.822474038712761146e-01, 7.802389872689782235e-01, 4.646236013471621851e-01, 5.241950689437381294e-01, 1.991517006546689450e-01, 8.763177595465689862e-01, 2.406702284311231788e-01, 7.456938289394995367e-01, 2.504062994154201416e-01, 3.804674590663095213e-01, 6.066920163051413573e-01, 2.211564306432786120e-01, 5.847127981713935441e-01, 2.579033284086871269e-01, 8.597483076349407005e-01, 8.199980919124731926e-01, 7.212769472720328978e-02, 6.573499487653972073e-01, 4.752585888270576264e-01, 9.632530609502782948e-01, 2.077354833145104718e-01, 4.199751211845204751e-02, 9.907337237201946367e-01, 7.821544697489524189e-03, 5.222997950682908841e-02, 1.375449613874934751e-01, 2.686181967126266557e-01, 5.681723719706172071e-01, 8.697801829081659442e-01, 2.975265405461742230e-01, 1.087526940399117931e-01, 5.665031544496680338e-01, 6.077384666522260837e-01, 5.368858587741132116e-02, 1.587204778671794658e-01, 7.467777526762302553e-01, 6.446853899418456546e-01, 5.670513022371443945e-01, 1.709675294896115805e-01, 8.578734855662450975e-02, 8.635502913128606517e-01, 2.774935817967675855e-01, 8.273623001884622408e-01, 5.170422442557397469e-01, 8.780136398680232768e-01, 2.320086537627241707e-02, 9.492214122485610472e-01, 2.717835426578186220e-01, 8.553577738869260205e-01, 9.083020973485830263e-01, 4.792449040183646147e-01, 5.007496421597642522e-01, 2.648472187712723747e-01, 7.361819182571315290e-01, 9.857705625882025036e-01, 6.980258503353201638e-01, 1.550945785046174419e-01, 1.361503288383106303e-01, 4.746146150582503109e-01, 5.935543476947165997e-01, 6.338515821905432723e-01, 6.841218806855867696e-01, 8.366792387453477753e-01, 4.093272239971000870e-01, 7.913205124494745446e-01, 9.774279266543198785e-01, 8.348642551783351795e-01, 6.596504654867896278e-01, 7.479876986423255047e-01, 6.745725484656968085e-01, 4.718800454577657399e-01, 5.761577930061189123e-01, 8.860562594009842030e-01, 9.268120937771527901e-01, 2.878593783031957454e-01, 6.758917575689549206e-01, 6.765606500780481092e-01, 8.659479104934347804e-01, 3.566835540544276428e-01, 5.500994728813237700e-01, 5.559230053377639535e-02, 6.687801659993727887e-02, 3.665916871093199969e-01, 1.814141749769567213e-01, 5.002950807005067668e-01, 3.682960014632730150e-02, 1.029397612343010832e-01, 2.174476504507076857e-01, 4.732326805111952139e-01, 6.648883481709531862e-02, 5.627790007491035862e-01, 4.063001692981380586e-01, 4.629330849926600600e-01, 9.721592356029242765e-01, 4.457425232791769470e-02, 6.642544031585656539e-01, 6.559772037785913668e-01, 6.098664822563412136e-01, 9.287471012965196060e-01, 3.540523709579853628e-01, 3.134028585323860305e-01, 4.682884675201355318e-01, 4.049376535322337656e-01, 5.685361532355563963e-01, 5.587900937927938738e-01, 1.990542362165215184e-01, 7.678493321156660834e-01, 7.703462602637463075e-01, 3.423928472691150082e-01, 6.121723478096264826e-01, 8.779559103993458402e-01, 1.034641104818962987e-01, 2.101570158659314957e-01, 4.564241858662792528e-01, 6.752619546520804983e-01, 4.376097867013009068e-01, 8.846425577533760798e-01, 5.897472548113804613e-01, 1.742958082967100142e-01, 9.915896523382354832e-01, 8.288988064931614996e-01, 4.857379196412434097e-01, 3.266050836961807979e-01, 5.875365873372058179e-01, 1.036834626054997655e-01, 4.755738920189257479e-01, 5.056769136012499999e-01, 7.059611118265775032e-01, 4.195367897441475979e-01, 5.530162021433771002e-01, 5.905097989562391181e-01, 6.666166561651039046e-01, 4.722899586059322585e-01, 6.374205036589414286e-01, 3.513091473963646516e-01, 1.990140248998892858e-01, 9.793084309186828040e-01, 6.890276829248802581e-01, 2.537791918219324816e-01, 9.054712838115854812e-01, 7.573692506944595948e-01, 8.298085104256810451e-01, 9.224027570304662582e-01, 1.026906263656792717e-01, 7.154596501082858273e-01, 1.613035139927398443e-01, 8.207740592258999657e-01, 1.217742490526920740e-01, 4.312453636690604108e-01, 1.639678764442623893e-01, 3.102580870675077929e-01, 4.219549875669569294e-01, 4.486057335080182451e-01, 8.364781582783045177e-01, 4.863460789863955358e-01, 7.462574021177493799e-01, 9.639961473309299755e-02, 4.758743102787865720e-01, 9.557671298569605511e-01, 9.307179829698399853e-01, 2.882374173735934297e-01, 3.628335771676768351e-01, 9.637487261100463609e-01, 9.902303702215389247e-01, 3.786531378780616519e-01, 2.629130580108232085e-01, 1.758334675255226742e-01, 1.556247849472984224e-01, 8.641854262190886704e-01, 7.712321563651591827e-01, 9.525691520886756525e-01, 4.436981657403429868e-01, 1.396793092645369772e-01, 7.749421503318507654e-01, 6.317363961458655197e-01, 1.396138591493106818e-01, 3.164596310816337188e-01, 4.328209706106997956e-01, 8.923638967713450887e-01, 5.639479668589576500e-01, 5.548868484626843234e-01, 9.123548917232028321e-01, 1.130116595141535257e-01, 5.345773435811590479e-01, 3.345398733133365665e-01, 7.945205740505567604e-01, 3.399598306685975846e-01, 4.251613749992926294e-01, 2.464385454428793809e-01, 2.841457803752899247e-01, 9.291790824848822350e-01, 8.475921394775444151e-01, 3.321860524914632129e-01, 3.377245028149630790e-01, 6.810828876824513989e-01, 4.607917649747705346e-01, 4.361046874979416232e-01, 6.478648366514828671e-01, 8.353227111049419396e-01, 7.883975416835559136e-01, 6.349356779749172341e-01, 7.663419912321867145e-01, 2.922946843607013290e-01, 5.378975190781050131e-01, 4.290373981036772477e-01, 2.738494913954248600e-01, 6.476140113972461698e-02, 8.012948120719437517e-01, 8.960777606902505799e-01, 9.060335763636725437e-01, 9.359581832691339365e-01, 5.212044094277658024e-01, 3.878658987661544044e-01, 1.941652998734046398e-01, 9.206438157833298774e-01, 2.587624669261530119e-01, 1.945457324537708532e-01, 2.133682451885966225e-01, 8.443550108868843607e-01, 3.554472811819675560e-01, 9.761507624479490719e-01, 7.670976915326246370e-01, 1.438483211994403058e-02, 9.545588639561469746e-01, 2.765787161113918424e-01, 2.087652906427148736e-01, 8.282066580766135958e-03, 4.957359930697469164e-02, 9.643124464900616477e-01, 9.256696266182501409e-01, 1.119711018731566199e-01, 8.275577122017728771e-01, 6.564822518956026087e-01, 5.371133369451706364e-03, 2.159572275666342689e-01, 5.777360764753282085e-01, 5.582702029144683831e-01, 6.658018652488747469e-01, 4.766933031502445517e-01, 3.212445687419300255e-01, 7.107214735187920018e-01, 1.427244985894655649e-01, 8.266676220962365651e-01, 6.955227659905823812e-01, 2.320835812864094905e-01, 9.591565095408292052e-01, 5.440965035304606845e-01, 6.987229717276118857e-01, 5.038958914567355230e-01, 7.547358879747452232e-01, 3.243445350855345688e-01, 2.609930888017220063e-01, 9.135940568800405837e-01, 5.879905670845646526e-01, 2.100613884933608400e-01, 5.674459097360949889e-01, 8.505217950690253659e-01, 3.236274589014564995e-01, 6.117614406541160843e-02, 1.912428742764157308e-01, 9.161364646220609975e-01, 7.331226851250050025e-01, 8.055219290627081419e-01, 1.810434300429582255e-01, 3.632315626633644268e-01, 2.838884210939581210e-01, 1.370497407418866387e-01, 5.362767306199172079e-01, 1.139357786874025807e-01, 4.491827359779787532e-01, 5.371867046490562680e-01, 2.899648760132666689e-02, 8.116316639507212827e-01, 2.508851695804883430e-01, 2.651266029818510894e-01, 9.921505072022742677e-01, 4.491694566315095338e-01, 2.985197418541913894e-01, 7.848181112581633645e-01, 9.925399209467227965e-03, 7.007225955964322406e-01, 2.672603312335706249e-01, 4.074620242467464487e-02, 5.271469363314041923e-01, 2.081020061406643196e-01, 4.418498042965710026e-01, 7.023512124566673176e-01, 2.615192470325658144e-02, 6.835630973791636533e-01, 8.570327270628256278e-01, 5.261990726591949663e-01, 8.689327677055742605e-01, 2.795987850319800461e-01, 2.779145332546658631e-01, 5.267603219363052869e-01, 4.352420077500956941e-01, 1.850510294005075773e-01, 3.045038606670502374e-04, 4.815258202777278340e-01, 1.183822425950443874e-01, 5.176753846212696075e-01, 8.212922004734803938e-01, 4.238311047615106464e-02, 3.000739089238316226e-01, 5.223423009251089155e-01, 8.910648289047388149e-01, 3.925638045784917707e-01, 5.235183204142868085e-01, 2.070416768960182258e-02, 4.882519054132435088e-02, 9.926057780039221345e-01, 1.927943530115521220e-01, 7.414944077849468761e-03, 8.515714857521224923e-01, 9.051757843291866612e-01, 2.986308667217674184e-01, 3.434226897694864777e-01, 1.244680666164194038e-01, 9.718183626381650397e-02, 6.401582393584831499e-01, 2.124938439551257163e-01, 4.960026296298911674e-01, 9.689943168570043230e-01, 3.721300022875364544e-01, 7.112988806396691732e-01, 9.387840581886012226e-01, 6.666353193955472101e-01, 7.622079439079887386e-02, 5.075850050727227503e-01, 2.339740971415310289e-01, 2.530851624677390999e-01, 2.905414555269586474e-01, 1.928757015512212458e-01, 4.647680503064257479e-02, 2.580634964136195308e-01, 4.469386770547297827e-01, 9.118026637258829226e-01, 4.491451460362572701e-01, 3.697058190256230503e-02, 7.028228643524530028e-01, 9.484255843991219459e-01, 2.496839638124302985e-01, 3.660709095176633010e-01, 7.009021358125797629e-01, 5.673868779481976432e-01, 9.022209522935145110e-01, 7.434649632402363650e-01, 9.766437741438848130e-01, 2.097929968672377077e-01, 5.632987580170413233e-01, 1.849284688368891816e-01, 2.137730668720926319e-01, 1.308073300036787607e-03, 1.782131322406455554e-01, 6.775474008343246313e-01, 3.374649621549652423e-01, 5.973391567625008225e-01, 4.586891179248656775e-02, 2.633404417438503509e-01, 8.947099963867266581e-01, 1.471656747975638169e-01, 3.551095416119982029e-01, 7.570593633685915869e-01, 5.735184894914478748e-02, 9.025134950556963354e-01, 3.214538972560661012e-01, 8.724768289853879200e-02, 4.824158781898768567e-01, 4.228899220317037799e-01, 4.261642577744428895e-01, 7.353219116082366780e-01, 4.629488122117998428e-01, 8.724532618968879882e-01, 4.597476494215090859e-01, 9.374137321777857856e-01, 6.905605320990454432e-01, 8.806824458385648091e-01, 7.952793557050370499e-01, 9.884905491478055417e-01, 8.883215764963801053e-01, 5.743799035225505278e-01, 5.974280356145864612e-01, 1.483504183500140294e-01, 9.194005790585767501e-01, 4.593702320660036226e-02, 5.766887437249011983e-01, 5.720058634185305468e-01, 1.931548313533447969e-01, 8.751985518334937098e-01, 3.546745105155453270e-01, 3.836363364740870696e-01, 1.137866102731454609e-01, 9.559119974652856566e-01, 7.099952654777762495e-01, 3.347419968119409450e-01, 6.440254651144502462e-01, 1.899865965791120437e-01, 5.657926386731313428e-01, 1.651340811072822823e-01, 9.023679160411443023e-01, 7.367923076529643289e-01, 9.319397437198568834e-01, 1.287665235938531272e-01, 1.311061930888219595e-01, 2.482234865592365392e-01, 9.643047675670397556e-01, 8.870962042617785981e-01, 2.809883759561211392e-01, 9.852343500306071089e-01, 8.409380262112610138e-01, 7.659860964503674152e-01, 6.932895307917141814e-01, 5.234256350496974131e-01, 9.771353518661184401e-01, 5.560348634033075443e-01, 9.613503218667512895e-01, 3.702113837277953845e-02, 5.116780490505008494e-01, 8.737178665539055977e-01, 9.962803086995328794e-01, 3.200909058333001878e-01, 5.260370593592499366e-01, 3.613527557613388508e-01, 6.561576288250381417e-02, 5.688245011955139763e-01, 9.428514479899915424e-01, 6.435722276587370061e-01, 5.233226207442903677e-01, 8.804321900855873739e-01, 6.842103927346560033e-01, 7.250637333602764079e-01, 7.377627537056222762e-01, 2.661838890324602636e-01, 7.373972939771500368e-01, 7.807859297869265136e-01, 7.890248158058782435e-01, 6.465130882825040892e-01, 2.212265339009005238e-01, 9.210178617880231400e-01, 8.473741789245103906e-01, 3.101597540086586391e-01, 2.550781452215632461e-01, 2.501589565864290599e-01, 2.717956443537942191e-01, 1.219538438491604149e-01, 9.135428568981599495e-01, 6.156512796235047436e-01, 4.583931695697897601e-01, 8.801460947472472540e-01, 9.726205936958993714e-01, 9.619492843455513809e-01, 8.651320647021993882e-01, 8.692730030465984914e-01, 2.462098940463048613e-01, 7.081748333697909237e-01, 2.241878634564766631e-02, 5.136499296083911759e-01, 6.980669571729458678e-01, 2.225943979457237487e-01, 9.861869622468386609e-01, 4.001957596490429703e-01, 3.932764056900101002e-01, 9.773125435093071856e-01, 4.187263428216948524e-01, 4.141950457663647334e-01, 1.325026759515408603e-01, 4.276249105761665836e-01, 8.752010748914675897e-01, 8.516060866493703196e-01, 4.304104888221393921e-01, 5.425208049902675578e-01, 5.867948278406256435e-01, 5.098182134973331392e-01, 7.238388946074093555e-01, 9.231531972440243372e-01, 6.137829109801822697e-02, 6.225928466392117722e-01, 6.771819241496292996e-01, 8.798524840275417924e-01, 5.020302404307478428e-01, 5.137531569654079089e-01, 3.616847619982919287e-02, 5.201272277204519456e-01, 5.557641289571549903e-01, 6.563120205581257638e-02, 2.556750727233478293e-01, 2.210846546285827330e-02, 4.512783950263062893e-01, 6.335830941517199832e-01, 6.824376307490535032e-01, 8.369175840941722733e-02, 7.148306751873753084e-01, 4.412851690113820946e-01, 4.081805570855746024e-01, 1.868917782698267804e-02, 7.284599195205110345e-01, 7.806964215340880253e-01, 2.293859862192606236e-01, 4.071707669822386411e-01, 5.482142896000921084e-01, 9.089908161216488924e-01, 3.326739776470623577e-01, 7.500837519962978428e-01, 7.217852053710559490e-01, 7.332637445242277119e-01, 4.180655752657936874e-01, 7.036623529362018292e-01, 7.454821729004750264e-01, 4.578364511240754497e-01, 7.242126672410819088e-01, 7.098399692012860029e-01, 3.569410849472152703e-01, 4.638203172876798064e-02, 2.455704568209103600e-01, 3.154091053002127110e-01, 1.081260390814420685e-01, 7.259108569053080995e-01, 8.749792123981608993e-01, 5.072855173684834851e-01, 4.880061690532352392e-01, 1.601948946274204810e-01, 5.117389477480844828e-01, 3.251762296883719539e-01, 2.278993104476244591e-01, 7.266383042133638392e-01, 7.407180313979970787e-01, 3.427290647899259302e-01, 1.606722466812239222e-02, 5.111620984061907569e-01, 7.978518159289971212e-02, 8.986516603597818342e-01, 5.500777742792902769e-01, 5.903195969884139638e-01, 2.038130796060529937e-01, 8.569984937662222801e-02, 2.693444572629146716e-01, 7.092721920500604238e-01, 6.372141460128739610e-01, 6.891330468266018139e-01, 3.588141768859240965e-01, 2.759028510002887180e-01, 6.585992472635753270e-01, 5.519922643375507754e-01, 8.831410921656733803e-01, 7.541062023465580078e-01, 4.587019623756148912e-01, 5.202963323328760881e-01, 5.105963700137643446e-01, 9.525898340389260532e-01, 5.419253499504532723e-01, 8.555907397716483453e-02, 8.644203720969241278e-01, 2.155324631256117784e-01, 6.290333563264121075e-01, 7.794005094842832992e-01, 2.116341373806284176e-01, 6.908104811702192594e-01, 1.860375390016037467e-01, 2.773234623759004425e-01, 4.258146830455104559e-01, 6.928788593013383013e-01, 1.356014312350230511e-01, 7.291930209559149834e-01, 2.436686042263563889e-01, 5.056683175395806362e-01, 2.789631034014430355e-01, 2.506433345945189295e-01, 6.797093701734606697e-01, 6.602908817929360463e-01, 5.490412617168765053e-01, 2.172492067658857995e-01, 6.928193429379453372e-01, 3.998694051367865931e-01, 8.453588155197796494e-01, 3.395274303894589840e-01, 9.985565258016636525e-01, 5.783023014828523461e-02, 4.372726570112211997e-01, 9.853265304612375264e-01, 2.837238925263176337e-01, 2.920410800596887069e-01, 7.210973847876561704e-01, 2.297657485843029868e-01, 7.401739858773376257e-01, 6.673609318013051794e-01, 9.634836999056882734e-01, 1.468751370017042923e-01, 4.548445046715842155e-01, 7.091949663953515115e-01, 4.620805955752081973e-01, 5.915106228205451178e-01, 9.833563226677931590e-01, 9.173839295082126810e-01, 7.668839565705825034e-01, 8.660015165460340780e-01, 4.467433518909051937e-01, 5.444001659364617884e-01, 8.823098852548936222e-01, 9.434458782056948101e-01, 8.961970080673915540e-01, 3.097314387298715221e-01, 9.110318468155750304e-01, 1.881635335291462763e-01, 2.112012516377195226e-01, 6.034858073640926301e-01, 7.095202386352230661e-01, 4.926902705694689022e-01, 2.818148988379136632e-01, 5.225286308098320287e-01, 1.076467880975263691e-01, 9.062718318140151885e-02, 4.774585687675340084e-01, 5.587821156865461214e-01, 9.275867128291862551e-01, 2.080408580334499602e-01, 7.433558848238799310e-01, 9.691337892008340393e-01, 7.915523945976782327e-01, 3.245327956671144598e-01, 4.410823548980264963e-01, 1.330662754277487647e-01, 3.540711953236049259e-01, 4.266040562170260175e-01, 1.161399305294786438e-01, 3.318139384396366909e-01, 1.424565155361773305e-01, 9.619886331099292143e-01, 9.175723415274652517e-01, 2.037528389400811504e-02, 2.358574315934368892e-01, 8.000256587872345282e-01, 9.288100358977375848e-01, 9.251340170726870538e-01, 7.125906588901428362e-01, 7.765775651835491455e-01, 1.029084411105194580e-01, 6.591559398992166141e-01, 5.145520127371317615e-02, 6.736231147137343445e-02, 7.997532497155325215e-01, 4.183145088075191503e-02, 9.530432168309050933e-01, 9.302972393803266016e-01, 7.324175036919248205e-01, 1.751765895669056272e-01, 2.503245928001121001e-01, 7.802665776684621912e-01, 7.378299501927178261e-02, 5.683137742770500989e-01, 8.973434271543699881e-01, 6.455505675719122038e-01, 1.937333639924361806e-01, 2.682848775826796039e-02, 8.730223639656775614e-01, 8.229383826927760825e-01, 1.298446690550538185e-01, 4.121626596883004034e-01, 7.793992490534215056e-01, 1.323731015489169049e-01, 2.658370276522555864e-01, 9.341213366083225278e-01, 9.464970654750560763e-01, 2.686678958129936068e-01, 7.304383068381603561e-01, 8.476440121246892057e-01, 6.919327888646233937e-01, 9.617187395212631884e-01, 7.371378907031490568e-01, 1.659410695145714376e-01, 5.010676471572440560e-01, 9.680598868369817422e-01, 8.398106175531921958e-01, 8.991357746041322985e-01, 4.964708375621134095e-01, 8.467002872186660811e-01, 3.208869459556264458e-01, 8.978780746102805743e-01, 1.153342623639147524e-01, 5.525140367067803426e-01, 4.338265586732446000e-01, 9.246618956342265161e-01, 7.747463889392585124e-01, 8.894766616217317790e-01, 8.283171133160571742e-01, 6.945693840917124273e-01, 9.275863313909613606e-01, 2.864840793079695969e-01, 3.424586133515945541e-01, 6.476071179755308327e-01, 7.817698640846451053e-01, 2.616861815639350830e-01, 5.204608705251075884e-01, 9.841048998313870477e-01, 6.453231866326103461e-02, 7.667254422331082342e-01, 2.785318012640786156e-01, 6.476114807569864906e-01, 4.846410009819021036e-01, 9.957207820600850745e-01, 7.826111168881505487e-01, 3.839059184116980772e-01, 3.400233873006215379e-01, 7.571231678985305968e-02, 6.935172536679908850e-01, 9.405923483713726219e-01, 6.611409132280589018e-01, 6.569267188797370816e-01, 7.772079685463755272e-01, 4.757776407374517125e-01, 6.138972482154232413e-01, 2.155247825564300321e-02, 7.612292862566429896e-01, 4.468342706590203717e-01, 5.856052842014154436e-01, 6.551520504268791845e-01, 6.644814223124498875e-01, 3.781779445840811049e-01, 8.063990042434303340e-02, 9.743696743811397498e-01, 6.350315397975936360e-01, 7.948262943539481373e-01, 7.371941802589857540e-01, 7.602829281648668669e-01, 9.191652477778143870e-01, 2.768611573170766671e-01, 2.515393726111241346e-01, 7.460235614097263657e-01, 5.438412388317206969e-02, 6.956214768237165558e-01, 3.805805288693210331e-01, 2.086763990090256260e-01, 7.211944378389613108e-01, 1.257861628929072828e-01, 1.393241937968443533e-01, 2.430154484677854720e-01, 6.590053706857126326e-01, 4.876429525354904898e-02, 5.513675903497309294e-01, 6.839850684047678042e-01, 7.653757107183254416e-01, 5.577749733180553671e-01, 5.394806755471357462e-01, 5.471205278075553791e-01, 1.419444630126759366e-01, 3.984713089152416288e-01, 4.894280479551476049e-01, 5.915603154917369044e-03, 8.242231457443185416e-01, 5.998272003511803119e-01, 9.465087181817973816e-01, 7.198736818243699487e-01, 4.865435110852819323e-01, 9.412330312609378247e-01, 3.878485593800924947e-01, 8.754260858669109524e-01, 1.889108164171093840e-03, 1.527945780315947411e-01, 8.222723048687257119e-01, 7.285455779878935445e-01, 2.437502060947201177e-01, 7.264398894073244017e-01, 9.492006800641140662e-01, 1.378758350296016739e-02, 6.852160516757058728e-01, 3.361462881940582292e-01, 6.048245667365968053e-02, 2.434705021775327438e-01, 4.548210396597381910e-01, 4.270838867748278922e-01, 4.929353663435342980e-02, 5.805474785261157539e-02, 3.689633003780091181e-01, 6.684009135803674617e-01, 4.333128473246308232e-01, 8.242299254444349632e-01, 8.413859851486632513e-01, 1.549450387086822867e-01, 8.931045958182241007e-01, 7.271071359201763951e-01, 2.589610068294684320e-01, 4.107923980707775535e-01, 5.910182270082692257e-01, 9.289024953610709456e-01, 6.661671951755632204e-01, 7.131451034802647193e-01, 2.942423975751485288e-01, 2.297051804370177641e-01, 9.154561039798773114e-01, 4.147055024450020666e-02, 8.811716358495522150e-02, 7.091956662293290581e-01, 3.560916957206974320e-01, 5.259550974753912644e-02, 8.299524404737177452e-01, 3.166676513256830860e-01, 3.395515047242575468e-01, 2.620943011276720136e-01, 2.800246875244704614e-01, 5.123948246182674637e-01, 1.353646383197681935e-01, 6.423098356650801533e-01, 1.926117269769242746e-01, 4.019451791157270248e-01, 7.227028889985981364e-01, 6.116587385564657975e-01, 5.555980375276691197e-01, 6.779558761771397046e-01, 7.819455625954983002e-01, 8.336977034552632837e-01, 8.781592810157281548e-01, 8.373594828547591407e-01, 1.165267462822994066e-01, 2.851644459321777680e-01, 5.024129691964849265e-01, 4.621560920938923012e-01, 5.669207582047757210e-01, 8.087038665134904658e-01, 6.688140216001732252e-01, 4.731238788283640417e-01, 2.024015618350079315e-01, 6.086069103853051221e-01, 2.478774497023880918e-01, 1.287660894194214145e-01, 8.891893596675606304e-01, 1.600479760508438654e-01, 4.838422093968673954e-01, 2.102662589617312894e-02, 1.378601170328239700e-01, 3.470229065127629076e-01, 7.592390122194973001e-01, 2.365272695258989755e-01, 5.682450999843640105e-01, 3.814678207436325574e-01, 2.593163909073757933e-01, 6.686225408061630127e-03, 5.232739942607671502e-01, 5.788041342361937014e-01, 5.398652068228250167e-01, 7.723816021037664958e-01, 8.838301051130537100e-01, 8.190124409931387461e-01, 7.405018464605916950e-01, 6.526306763975179281e-01, 7.604783152763381349e-01, 1.944709116186465747e-01, 7.940866919359810261e-01, 7.902903347489395047e-01, 5.540330794007291004e-01, 4.980934816940382204e-01, 5.278660700081080348e-01, 9.800566495712580428e-01, 5.681242338488301513e-01, 7.118459841568067770e-01, 1.705647516080254222e-01, 9.345744772086247432e-01, 8.244539374345252192e-01, 2.187801730438464487e-01, 7.448895247736693204e-01, 4.748483313878744672e-01, 5.162437198615235090e-01, 6.850298909727933205e-01, 5.415665139966968633e-02, 9.486942680335304079e-01, 9.985063750192794130e-01, 9.262320408760299148e-03, 6.080191643696405412e-01, 8.975834890340725902e-01, 5.175137963779845585e-01, 2.635647396686291444e-01, 4.090181863489579239e-01, 5.940236892661047152e-01, 6.680047475846828675e-01, 2.536635916738784122e-02, 7.280696193054047027e-01, 2.659951086095913020e-02, 2.881264709213898767e-01, 5.963930088417906950e-01, 2.434392256534376464e-01, 1.921837985346229738e-01, 6.363061317700929864e-01, 6.678523684612988065e-01, 5.009878632671724286e-02, 5.647814491243818846e-01, 3.123230290518012597e-01, 9.557998021383958820e-01, 3.217384692923763168e-01, 2.114886904850337979e-01, 2.621065808966677735e-01, 8.540989015942812568e-01, 7.643019267828107810e-02, 7.013611779588792006e-01, 9.181497318607738656e-01, 7.394219820832396151e-01, 4.997491845391796583e-01, 8.439739904695499062e-01, 4.798587484361627187e-01, 1.463695898667261852e-01, 7.544966481682433557e-01, 6.625454699390207480e-01, 7.856246813982880051e-01, 9.199379018950182285e-01, 7.860741705399437729e-01, 2.246688121243132497e-01, 8.849004844349936949e-01, 4.571234730627816711e-01, 7.651597125803827337e-01, 2.873022888658384177e-01, 5.866522588382455661e-01, 2.489436150084137489e-01, 3.781029807305409385e-01, 9.972449202252808842e-01, 7.060574304879011498e-01, 9.837230569053173612e-01, 7.645973460151562762e-01, 6.891531061107668554e-01, 5.666772297960012139e-01, 5.542530414803094052e-01, 5.137326641211497069e-01, 9.883242149951151356e-01, 2.738026690981514855e-01, 1.089189266566715775e-01, 4.209186596623349930e-01, 6.017275154320611552e-01, 3.510635530344241584e-01, 1.140052883455497240e-01, 4.739292209315253482e-03, 6.797570873630740529e-01, 1.279657310996174524e-01, 6.981378582226819285e-01, 8.290169815941338394e-01, 3.771306719137436647e-01, 8.496608538458559901e-01, 2.598911963321198226e-01, 1.481044291413524672e-01, 1.367024853169253873e-01, 7.395783816683458856e-01, 1.872774139571697638e-01, 5.088837989927810224e-01, 9.636661345424487601e-01, 7.253366019280977905e-01, 6.069862439746704919e-01, 1.204699479624190273e-01, 7.971521006282005217e-01, 4.874310572339435876e-01, 8.273422487710321294e-01, 7.778221619265434095e-01, 9.646591710277129250e-01, 3.649229928882732343e-01, 9.007497339932070413e-02, 1.183095993727174278e-01, 9.133198809853905198e-01, 3.895827441947882219e-01, 9.431233030257076821e-01, 2.920207256961525610e-01, 6.919060679122156499e-01, 7.579848319173463356e-01, 3.439095378783697532e-01, 9.522372177855357167e-01, 1.939065540097265616e-01, 7.915522067402420703e-01, 7.291633591195760822e-01, 5.874145492936575647e-02, 7.337745377148220394e-01, 6.898240500050523138e-02, 5.777620573716061303e-01, 1.981949665115407544e-01, 1.351650439691912675e-01, 5.575528306038143311e-01, 7.409745360070918441e-01, 3.601420053401471755e-01, 4.372037557327171364e-01, 1.959642511068353521e-01, 3.524346216357503447e-01, 4.974799871508364113e-01, 3.528747459243187778e-01, 5.007666125047915973e-01, 9.601816218861736196e-02, 5.183667218556640144e-01, 1.010711313566752950e-01, 2.534871419761705047e-01, 8.445668968354558270e-01, 1.480197005431302670e-01, 1.494907970885582249e-01, 2.455795925199708574e-01, 6.919282848240163597e-01, 9.598523889044359436e-02, 1.551474513729320659e-01, 2.788010101048865041e-01, 9.033281595334687886e-01, 6.370876529231698226e-01, 2.455300643699110108e-01, 9.848833101365710441e-01, 5.415997899248826686e-01, 1.608069043637722073e-01, 8.958473859322350075e-01, 9.008515264891210350e-01, 9.957271447658091468e-01, 4.367522903858058192e-01, 4.251974829596309458e-01, 2.461920053654161888e-01, 5.089957912477635071e-01, 9.398528169001786337e-01, 6.178058747336664380e-01, 1.326650913295572831e-01, 7.149978533548404513e-01, 5.786561490322918999e-01, 4.378998442020696213e-01, 7.364858155750736435e-01, 7.887136547491300220e-01, 2.329035730883065869e-01, 4.519373811731659529e-01, 7.486479839592796726e-01, 3.233172306655691108e-01, 1.014211276683804341e-01, 1.078622934671713413e-01, 7.424854800911727670e-01, 8.605958924201864146e-01, 1.007987215022023708e-01, 3.164713862923677207e-02, 3.653817181461009311e-01, 5.659317060671494870e-01, 1.108833101664758077e-02, 6.282833107944434392e-01, 1.807791669304363580e-01, 2.415372683264518372e-01, 3.733337190775731229e-01, 2.302380404043837536e-01, 8.869092161350944359e-02, 1.443239095028889807e-01, 8.299018695076959551e-01, 5.637037712768843134e-01, 6.435025356626909998e-01, 3.289379224557670844e-01, 3.349271436333169927e-01, 2.696034793181508182e-01, 4.897799856966077447e-01, 5.405066009771632984e-01, 5.611983266057574138e-02, 7.850810545022879339e-01, 7.806410583351619525e-02, 8.402180133662220385e-01, 3.102657739955279603e-01, 1.306452449098544633e-01, 2.746049865831862169e-01, 4.626710504080096542e-01, 9.061347204983373205e-01, 2.914562790101488110e-01, 4.624538850841377613e-01, 8.434263820215942564e-01, 8.232935729281056769e-01, 9.896408780022919460e-01, 2.614513385510155441e-01, 9.475051995820577000e-01, 3.909919271185667844e-01, 8.928028012407346337e-01, 1.367437032422496590e-01, 5.374836181829896198e-01, 4.064217052902871496e-01, 9.314210993818644591e-01, 6.461892994652409516e-01, 4.855405796054317880e-01, 7.053049378498941202e-01, 5.191049435047888627e-01, 3.005483190896989232e-01, 8.007321993899451096e-01, 8.740254188550117265e-02, 7.593948137225390305e-01, 5.139129321010996732e-01, 4.489448857681129779e-01, 6.524283897254061770e-01, 9.054575824221224867e-01, 5.146910901297769431e-02, 1.373349390251592250e-01, 3.707876236125258185e-01, 1.844042252384841263e-01, 4.750843728023103618e-01, 9.254218924541071090e-01, 9.274705188800732580e-01, 8.969601262761049965e-01, 5.123379609817583225e-01, 3.304400778374367853e-01, 2.997304267272487555e-01, 7.310207264598781451e-01, 8.967649939152744221e-01, 8.513429977555408978e-01, 7.579956806246251899e-01, 5.538259907754543576e-01, 2.330685223699874298e-01, 7.361053368712255907e-01, 7.930573581590784071e-01, 5.470733327440076288e-02, 1.275424349699086635e-01, 5.013301651135589898e-01, 2.093542408917368480e-01, 2.310080686336259126e-01, 2.571984022230016653e-01, 4.429295486506622526e-01, 4.247491732971502842e-01, 2.431057206517989178e-01, 2.325200393831883261e-01, 9.537318971001318424e-02, 3.863002334971543661e-01, 4.599634034665322502e-01, 7.097853009761970755e-01, 5.554573165696089498e-01, 4.642901615733797116e-01, 8.252489197466990056e-01, 4.590288200462280255e-01, 1.245512270050332972e-02, 3.699354101435622377e-01, 7.733667294519943614e-01, 9.588755510671470583e-01, 4.085202824543057720e-01, 2.694260360749024530e-01, 4.970214860637466869e-01, 5.226195730997837963e-01, 5.670022481337335662e-01, 3.615860949794823531e-01, 6.154237595726281818e-01, 9.010907863446382393e-01, 8.091146864275108319e-01, 4.646515985568859530e-02, 5.989761842981898392e-03, 2.339512877192329310e-01, 9.690911003998765594e-01, 2.459860292687099381e-02, 3.097966306975677431e-01, 5.137048963028645332e-01, 4.237195301304210182e-01, 9.045715375121059498e-01, 6.730435530005116629e-01, 8.491794438353391650e-01, 3.523874223117815646e-02, 9.563116317096825858e-02, 9.304993362973436044e-01, 2.049986690281900836e-01, 7.079582733075814316e-01, 6.407036832092679601e-01, 5.082568219544387755e-01, 9.482259759037177105e-01, 1.619710744298198946e-01, 6.588145593985471338e-02, 8.820427264378858379e-01, 1.789818869489532283e-01, 3.001263115752189070e-01, 8.693897581113460005e-01, 2.947557601117958281e-01, 4.814307811936019421e-02, 4.269473094867269891e-01, 6.594595978966626415e-01, 3.037347302874847110e-01, 6.277605701844720665e-01, 9.477368708274748199e-01, 1.669242150026920002e-01, 4.884412637556712067e-02, 1.781892976142014917e-01, 2.576723695744241871e-01, 6.833230806515825373e-01, 7.279440768788189020e-01, 1.369112092915252266e-01, 3.105578485284732904e-01, 8.868946010797147395e-01, 3.306866705772799619e-01, 2.559190897319767455e-01, 7.204917667016149663e-01, 8.347058968266120038e-01, 3.551090840646746738e-01, 6.742825367881182252e-01, 2.618564242907550077e-01, 8.867312740652816272e-01, 2.420623005388177762e-01, 5.102602420788576731e-01, 6.953224376469066548e-02, 1.512642572285738396e-01, 1.170931569874845979e-02, 5.914359698583288028e-01, 5.071278992310859213e-01, 1.137933395892867239e-01, 5.262043003826921694e-01, 4.522210237488917262e-01, 1.761357190506629422e-02, 1.615614258305276552e-01, 6.387553995100645476e-01, 5.858386363477703362e-01, 9.282410890793340030e-01, 6.802164262256897853e-01, 9.373196385286394205e-01, 6.391848686394157042e-01, 5.154613521731049586e-01, 1.189120313278412555e-01, 6.343676191234953743e-01, 8.585259548925718853e-01, 9.086801629051541873e-01, 1.195159641580265664e-01, 5.129735611093871883e-01, 6.493928000506460352e-01, 5.680740441584579692e-01, 9.037056749370575570e-01, 4.853718505088953639e-01, 6.878772697780959344e-01, 7.153543637797813437e-01, 9.059101789192720577e-01, 5.910896466001575034e-01, 5.809232008339091369e-01, 5.050093347782531605e-01, 9.162948631760435836e-01, 2.724876830562821817e-01, 5.449210509346790188e-01, 5.430586725883208565e-01, 2.507673524605333326e-01, 6.204280965971274986e-01, 9.368863005601417437e-02, 1.568938475695709142e-02, 2.203250615698392201e-01, 3.940216791886442804e-01, 3.323455054220929572e-01, 3.388704018870110635e-01, 6.010869535989489254e-01, 3.263696631882621046e-01, 9.139399227754001487e-01, 5.053947492110363177e-02, 8.325697710730282086e-01, 5.122780969182423316e-01, 7.313124210613540788e-01, 2.151024692355471835e-01, 8.268138349079399152e-01, 7.090677200497785826e-01, 1.716742703609757947e-01, 4.307326419904420889e-01, 9.033397535001266299e-01, 6.207708224112835627e-01, 5.424090602479456624e-01, 8.129751820904989046e-01, 4.889253853456004828e-01, 3.258226835756221074e-01, 6.194520122362250358e-01, 5.572899796991453991e-01, 5.647478952301853150e-01, 3.355875319684294977e-01, 1.569340115434234018e-01, 1.331829912218683853e-01, 3.021575129742526400e-01, 6.385321847608023405e-02, 6.174885695637032379e-01, 7.808227566984171641e-01, 7.729627718606879583e-02, 7.203993765961839157e-01, 9.901051286656608053e-01, 9.698313276996610444e-02, 8.229325374766957024e-01, 3.601728530697967390e-02, 6.574173663822732161e-01, 2.077948381358547536e-01, 2.811157701627644556e-01, 8.041182626354315133e-02, 5.231446108914575843e-01, 3.832424978003787230e-01, 4.497236786193862246e-01, 1.648592111014691719e-01, 8.674756490987142188e-01, 2.841718468755821680e-01, 6.123263657023503281e-01, 3.245096349495661392e-01, 4.329859696933388014e-01, 5.160796209837266446e-02, 1.706855825801995019e-01, 9.627295733087529173e-02, 4.674961326900068936e-01, 8.607184085253983818e-01, 1.856296803219892599e-01, 7.604831425216115326e-01, 6.687900021650311499e-01, 9.159103077866499465e-01, 1.968752962125230876e-01, 8.218148708874977171e-01, 1.400975494910228214e-01, 1.291401466049400815e-01, 7.709993458335457905e-01, 2.425757522262071975e-01, 9.506403700757022346e-01, 9.829534823541941080e-01, 6.473954981895139182e-01, 5.606573449020686439e-01, 1.887875324159470347e-01, 2.425157355008195070e-01, 6.795169846270664449e-01, 5.547531794478056666e-01, 1.282598465233807106e-01, 7.142715192387283363e-01, 1.977535649412928143e-01, 9.554734135736899781e-01, 9.832096519376519739e-01, 2.023104521418450652e-01, 2.731755080910840301e-03, 5.096634458829069070e-01, 3.073072249178505078e-01, 3.318713375300777479e-01, 8.924784592283868667e-01, 1.523172123111310450e-01, 8.910474286658749410e-01, 7.018125880784381598e-01, 2.771841099196212799e-01, 8.907750454160661135e-01, 8.168842505681549460e-01, 4.755907020959952436e-01, 8.741014669441520279e-01, 8.066076251184087775e-01, 9.910623529603240778e-01, 6.469904911341267661e-01, 8.436163404991428028e-01, 3.894197253159981109e-03, 3.867429380119887794e-01, 5.175883891960300076e-01, 3.694940198421519661e-01, 6.249223563562045225e-02, 3.994966316704719467e-01, 7.667092813035207843e-01, 7.405981955132791006e-01, 9.646735945609989926e-01, 3.679728944144265435e-01, 2.733359840104341298e-01, 9.705947762086709618e-01, 9.519006048791938124e-01, 7.959834246178946193e-01, 6.021136677180315422e-01, 2.989389179044021905e-01, 2.493419072691609450e-01, 4.984578057825686526e-02, 5.702424187478295492e-01, 8.642951936150727876e-02, 7.620237147843209602e-01, 8.934218828968188975e-01, 9.449664687392833606e-01, 1.439713483900247337e-01, 2.420875208910366894e-01, 1.136792822023064975e-01, 3.600550166785642658e-01, 2.462115706168654938e-01, 7.131438868415605759e-02, 1.199579348382690952e-01, 6.998463734551155779e-01, 2.992194844168272194e-01, 1.685205421943011816e-01, 7.715676409642463485e-01, 8.929740736382854038e-01, 9.393909729224203531e-01, 7.216747533956848759e-01, 8.995785641977108726e-01, 6.956822213021754964e-01, 6.208309843622549229e-01, 1.384545408135876843e-01, 1.524054744872581357e-01, 3.771230922109816697e-01, 8.828694202730462404e-02, 4.394097127926352431e-01, 6.136702368881699066e-01, 2.624472097332466447e-01, 3.080604749528221276e-01, 9.468637165328341876e-01, 6.468590228964030686e-01, 9.341684371916477714e-01, 6.786781943185840049e-01, 2.268225506899236021e-01, 4.190741783866270831e-01, 6.215745226096522913e-01, 1.368058955073234439e-01, 6.730952253389727025e-01, 5.267200499390592983e-01, 1.838690996036194403e-01, 2.895519764217595604e-01, 1.633247943135226338e-02, 7.611256847587119512e-02, 3.018499477104999995e-01, 6.747542706310095673e-01, 3.802986077489893812e-01, 3.797554699144714552e-01, 3.844480320390515349e-01, 9.456456815105479530e-01, 4.326552319573217509e-01, 2.380253454551140707e-02, 7.190509186579171486e-01, 3.348480018940636627e-01, 7.566028590938232989e-01, 8.547350500545738416e-01, 2.064728487393156231e-01, 7.596917130542004681e-01, 4.123154285631876470e-01, 9.802283159688244263e-01, 3.256814255512801570e-01, 1.536263044133286994e-02, 7.662869844206547931e-01, 2.689383531552596573e-01, 1.120321366661046758e-01, 3.574377942840891165e-01, 3.236478078772153655e-02, 1.873784043234949862e-02, 5.511464925071104526e-01, 8.843760751216414584e-02, 9.696735961073488230e-01, 9.709300099853178656e-01, 8.208870525605536095e-01, 8.610430908509019154e-01, 4.266641676340086620e-01, 8.727034158694690902e-01, 4.202678690029709729e-01, 8.316800425686840526e-02, 1.600037353368384263e-01, 7.255989453183732119e-01, 4.444498498546842757e-01, 8.117391386270650377e-01, 9.247199306355793347e-01, 8.165531859243674306e-01, 1.404333844858951172e-02, 7.886062012375731900e-01, 1.270832233128177946e-01, 7.916647013584954262e-02, 7.574104426968705228e-01, 5.026604088719892616e-01, 5.137959009775021624e-01, 5.906692154269044259e-01, 7.888349222117075898e-01, 1.828564310436859019e-01, 7.635292938833324605e-01, 7.233796059424073277e-02, 8.734111227373901887e-01, 4.195275773470558134e-01, 5.399499458468733915e-01, 5.524566467195364261e-01, 2.448289843422123691e-01, 6.455124254928948924e-01, 1.262794931883203797e-01, 3.900723994362393365e-01, 1.873163016698221328e-01, 7.401236378849100905e-01, 5.572128342817250779e-01, 7.626897420410552186e-01, 7.245598865113455078e-01, 2.051807514105551955e-01, 9.166135767005666457e-01, 8.777697158216799522e-01, 6.086876940229299926e-01, 7.223657115255068817e-01, 9.887232856258234559e-01, 3.206436373183076394e-01, 7.968294323916825794e-01, 2.088091698674687802e-02, 8.995280805701865168e-01, 5.943728434149491147e-01, 4.862514499710677840e-01, 4.104430015167318535e-01, 4.711646677035379732e-02, 9.014967168044303314e-01, 2.883990642587179742e-01, 7.027847045409955085e-01, 5.472046550193708780e-01, 4.520705312100682383e-01, 4.875438619036960297e-01, 1.800839803408438577e-01, 2.210071823562477500e-01, 6.229793819124460619e-01, 5.208336004247214879e-01, 1.760153286695743668e-01, 5.514667146579067536e-01, 1.026396852035078022e-01, 7.386477320601579910e-01, 4.444255234773998864e-01, 9.860846136465548639e-01, 8.471644494488470567e-01, 5.399816564288641985e-01, 6.497389063685349297e-01, 9.598392415262786692e-02, 3.478766523182666437e-01, 3.298010497933832053e-01, 4.919571527241842768e-01, 2.863646132174890724e-01, 3.447303772943140499e-01, 8.538872186321456725e-01, 9.493591510563933467e-01, 5.993640123582217871e-01, 1.442682811821999755e-01, 6.503820506250889144e-01, 3.413105592115458498e-01, 6.234255672790599556e-01, 4.361007479230155637e-01, 8.960004117022469794e-01, 2.659669488153412198e-01, 1.425397337280670251e-01, 3.419092452663334281e-01, 2.893563606748076888e-01, 9.224554830813770367e-01, 7.498983631111906245e-01, 3.096245263730028688e-02, 4.480624623558082664e-01, 6.393313430320026747e-01, 6.138812243977849192e-01, 3.779574857585132341e-01, 3.486007040407949620e-01, 3.908892241494846959e-02, 5.319719343669303546e-01, 4.496260718818096969e-01, 6.752119633429030099e-01, 3.602422423482604108e-01, 1.447444619892352957e-01, 5.439501465726839236e-01, 1.966561516140860333e-01, 8.465086398899408504e-01, 4.697445718002594139e-01, 2.492882576691195506e-01, 8.787854774358471177e-01, 2.751966338047920346e-01, 6.174668373399287979e-01, 5.985934726873259892e-01, 1.340075441086253927e-01, 6.829202026660678715e-02, 4.613796499804813100e-01, 5.578271620898540561e-01, 3.188432999153913427e-01, 6.031505494505243758e-01, 3.614584894550128547e-01, 5.508928387996741005e-01, 2.499472571959510392e-01, 6.125346321335888300e-01, 3.869389199134952717e-01, 4.557734857999905520e-01, 9.584950358704485973e-01, 2.854602163456926855e-01, 9.510328612670606585e-01, 2.884238004934084887e-01, 3.948294318925648638e-01, 1.943985439317582609e-01, 5.644315790125847832e-01, 2.942409147364938860e-01, 8.955834352364582251e-01, 1.091703569352789199e-01, 9.392204594417857821e-02, 7.688106278990485265e-01, 4.102341376321271688e-02, 5.560225677128207700e-01, 9.189523320514447757e-01, 1.023837336397759312e-01, 9.561372004945022374e-01, 7.085229163975145239e-01, 7.968880893892610340e-01, 5.231539690383276708e-01, 4.688104757563393843e-02, 6.827341573312937228e-01, 8.535863601893028951e-01, 2.177081320039793988e-01, 3.055458742353082124e-01, 9.275698559952874067e-01, 7.584700407721927107e-01, 4.886516689395253854e-01, 3.434283395681804185e-01, 1.177555975470550992e-01, 3.115396992671746745e-01, 8.092075108142048334e-01, 9.479664536418670462e-01, 8.315043341331619375e-01, 6.367022341914482242e-01, 3.470983996358836809e-01, 1.487362986030315026e-01, 1.558253304815589435e-01, 5.983884841939615118e-01, 2.070060686982482800e-01, 6.905021922834127246e-02, 1.438533951405013278e-01, 4.325560237501981375e-01, 9.854013561033322377e-01, 6.613121582678179733e-01, 1.925572028005411440e-01, 5.451752740384162577e-01, 2.268151401101200226e-01, 3.294239503320166573e-01, 2.526809923068020769e-01, 7.682745264002129870e-01, 3.288034304317275502e-01, 2.425679394523357901e-01, 1.654032435916352739e-01, 5.321401652663368953e-01, 7.678407184384347106e-01, 7.125777588905078952e-01, 3.303597052929388989e-01, 4.141525428236013107e-01, 8.008094840489575761e-01, 4.278749688169941612e-01, 4.835521576511137010e-01, 8.871023266694372245e-01, 9.619813327795860847e-01, 6.599158449906909751e-02, 9.499431439858604387e-01, 2.917746443605263029e-01, 2.481750741806528771e-01, 6.452969377527997263e-01, 4.431388432554305146e-01, 7.695456898541872537e-01, 6.854022242915268626e-01, 4.245998923316309237e-01, 2.406325502364603797e-01, 7.158587831910299126e-01, 8.400668164499219825e-01, 4.549602781951742614e-01, 3.414764828244705175e-01, 9.265533246482324792e-01, 8.945583152667290205e-01, 4.107785851263745514e-01, 2.839388029341446407e-01, 5.821355802167096360e-01, 2.341096416574092731e-02, 7.518537908062654651e-01, 4.811138968464315213e-01, 3.796322963062482847e-01, 9.019859878721623314e-01, 3.345129071984069280e-01, 3.310449681808617650e-01, 6.947424719585495456e-01, 6.882533257512210012e-01, 8.788357021589188189e-01, 1.945240516294216571e-01, 7.664114003530922425e-02, 8.637843146332666588e-01, 4.085569199049011724e-01, 4.394636861010654538e-01, 7.879713861868988811e-01, 1.432205439320602403e-01, 3.142764404677514944e-01, 8.943816406796335494e-01, 4.403278037704977388e-01, 6.002603597723276119e-01, 7.933997258128230312e-01, 6.242438846591195079e-01, 4.650920749448597680e-01, 2.998852577635733874e-01, 6.842049553631889269e-01, 6.258892289902776573e-01, 5.562672988610839475e-01, 6.669632598099344278e-01, 4.825617488819131801e-02, 8.157370346203867140e-01, 7.334932785444275849e-01, 9.113673317023696097e-01, 6.593856035343281796e-01, 1.034393452336390684e-02, 7.522065641511416212e-02, 3.327252201377947638e-02, 7.979099828925456661e-01, 2.078388040076723786e-01, 8.823809427711326592e-03, 3.777037412384897652e-01, 7.717344174415039504e-01, 5.725827142693194760e-02, 6.480179252874518347e-01, 2.158265513547224790e-01, 7.571776516715861272e-01, 7.275089191773651542e-01, 6.900137960198682308e-01, 8.983308590756367007e-01, 9.366615456838150999e-01, 1.448483503847641518e-01, 1.675375980557868294e-01, 3.609164914872730057e-01, 7.125571945031444754e-02, 8.109553929943388306e-01, 7.930538705525013166e-01, 6.723341663864563778e-01, 8.713431288555057996e-01, 6.027082522135117637e-01, 5.304141849284550458e-01, 4.238829419897232609e-01, 1.030579566952304765e-01, 8.296868273274606853e-01, 4.309196504264910521e-01, 4.885113533197238400e-02, 5.578081659182079072e-02, 5.867359276543576002e-02, 8.205446656563420982e-01, 4.541968762536046644e-01, 7.093985514081459220e-02, 9.227741960373329055e-01, 3.025172249366720467e-01, 1.029580853264718265e-01, 1.236550827646545024e-02, 5.070102517616987825e-01, 7.392767469281656956e-01, 3.854760472885204181e-01, 1.132040971761329590e-01, 7.702074291609266599e-01, 8.530200199302983011e-01, 5.031437928599055004e-02, 4.428522619104642288e-01, 5.251192213557367428e-01, 6.618609509113974054e-01, 7.228363468113225832e-01, 7.358631459589857204e-01, 6.251384485391286994e-02, 8.115091701375926059e-01, 1.079084350321747321e-01, 3.693104879780894079e-01, 5.663162241454249290e-01, 7.147041592440706026e-01, 1.987405867082440158e-01, 3.353868661802872353e-03, 4.357524268154887581e-01, 2.603736557840972132e-01, 5.904453217466503201e-01, 2.812792267862953000e-01, 5.567391920607592803e-01, 8.865383782186503359e-01, 4.658935121819368641e-01, 5.786980606436091801e-01, 7.491021644698082627e-01, 3.460686249687334737e-01, 5.297851299602666097e-01, 6.199885827934418225e-01, 4.453303791788161270e-01, 5.450485514217062732e-01, 8.110550424851010742e-01, 9.324694213606939952e-01, 5.590307505742603267e-01, 5.256170947701995777e-01, 8.869543686692727968e-01, 3.678631912301517648e-01, 9.584740022978927021e-01, 4.753028958780469021e-02, 1.738169636435756837e-01, 4.185640157229755243e-01, 3.985366184594345551e-01, 6.884762721020660781e-01, 7.085940491595908997e-01, 5.866410634881004116e-01, 4.000193896450088271e-01, 7.838263088917817312e-01, 2.354706425027494332e-01, 2.808476328192351379e-01, 2.785961120888712228e-02, 4.020473956208319710e-01, 7.866544121498736386e-01, 8.877126954323936170e-01, 7.310904913025543239e-01, 8.690800705988436237e-01, 9.023759214773613424e-01, 9.894925509606854463e-01, 4.403424368733021566e-01, 3.046666707391024187e-01, 8.024700625615420746e-01, 3.012090279244312718e-01, 7.920967336685288407e-01, 5.891040073004044642e-01, 5.106176985900852117e-01, 5.420441159888211846e-02, 1.526288761981947628e-01, 7.445055386034571399e-01, 3.827364923779782990e-01, 1.229296510640283113e-01, 1.600044352835550410e-01, 4.896445267719313765e-01, 5.576578901680859790e-01, 1.617053247219081002e-01, 6.370451963115609795e-01, 6.391479443968965946e-01, 2.472082418899264056e-01, 6.661607640848753453e-01, 1.139670973562071365e-01, 8.326381162822560356e-01, 2.984163399887875823e-01, 1.024668120851976311e-01, 9.845986175970280474e-01, 2.754706523916307659e-01, 6.989368114166467638e-01, 3.342989511265609393e-01, 4.618051447235920204e-01, 2.002608571667980342e-01, 9.435191193732922477e-01, 6.272843608545120020e-02, 3.521414852196202427e-01, 9.348899191290207522e-01, 8.639708113120366795e-01, 8.040872117672438479e-01, 8.652496761068265707e-01, 6.759171847035679859e-01, 2.944096422311952566e-01, 6.997217921124645468e-01, 7.548847921851187248e-01, 7.885454000535130348e-02, 7.701482587089826248e-01, 3.740780500669440428e-02, 6.767361636661031188e-01, 2.081322507306651581e-01, 2.363437495216884066e-01, 2.001501191994499163e-01, 1.488777184135352538e-01, 3.037138366061695738e-01, 9.099892267806151125e-01, 2.980563067398726562e-01, 5.018765914774032666e-01, 3.462426210055243869e-01, 9.332510996302244566e-01, 7.717181339823345754e-01, 6.218891619828449402e-01, 3.332671087616878025e-01, 3.390916238187148823e-01, 9.733248236995855063e-01, 6.336854028177818510e-01, 1.306220598502413621e-01, 2.876791377764282842e-01, 6.992956187514780542e-01, 8.889436392113468643e-02, 4.922670173002645644e-01, 4.919431272960917562e-02, 1.169551555191514769e-01, 9.684491711083308418e-01, 7.174692683745271804e-01, 4.437196124625538141e-01, 9.639790076225368542e-01, 7.874419987008950406e-01, 2.803119699272846876e-01, 4.102192757081378760e-01, 2.864745446351517622e-01, 2.002333070464568099e-02, 6.867734472221824760e-01, 4.666670643276348840e-01, 3.504185672472903135e-01, 2.078403478106600755e-01, 1.424117265158851564e-01, 8.217114516759294052e-01, 9.835857516512460652e-01, 5.170403710166514566e-01, 5.195352094221175054e-01, 3.969764065438977640e-01, 4.104069597866151775e-01, 2.789500931659457672e-01, 8.515353620418173453e-01, 1.413951466805700163e-01, 6.618791167738471426e-01, 2.210414772616824952e-01, 4.769957963526971073e-02, 8.765902791380929537e-01, 8.858541590074152650e-01, 1.973103449794584296e-01, 7.785834282770071058e-01, 4.033695603760407145e-01, 8.381392521296500142e-01, 1.204395864058765003e-01, 4.520384938454343748e-01, 7.097967244422366262e-01, 7.527039497534815382e-01, 5.788002347853047347e-01, 9.697633325774357438e-02, 1.781864891138463802e-01, 1.830601376621195375e-01, 1.430263612080852065e-01, 7.367156834836534607e-01, 5.177821422187572908e-01, 3.473429477065766990e-01, 7.951892439485334085e-01, 6.980257603482939999e-01, 9.046668274533784526e-01, 2.896601979625627044e-01, 6.951401248628623353e-02, 5.073913698466436806e-01, 4.528239136744571791e-02, 2.007129418346280669e-01, 5.993724801886464171e-01, 5.492683074882344085e-01, 6.430240009678239721e-01, 7.028757196501530524e-01, 4.687429065913163995e-01, 2.186204149636082339e-01, 1.352149939357133457e-01, 4.316768236062183406e-01, 6.648506838420896736e-01, 4.542568948161805342e-01, 5.402898620833213039e-01, 5.404101490906904059e-01, 6.200999895629104586e-01, 8.530313125548607545e-01, 9.567693306400318898e-01, 1.143579338842837766e-02, 8.262818017435474838e-01, 7.669747761918961348e-01, 1.595096090540225886e-01, 1.427650986809219646e-01, 5.443878648916183893e-01, 1.180904306158021277e-01, 1.355988682176199334e-01, 4.270727167067683849e-01, 2.658472794934824690e-01, 7.373867317468447702e-01, 9.529498378084289012e-01, 4.091455846283188480e-01, 7.996019538110095137e-01, 5.801507982962954557e-01, 9.135774859958822880e-01, 1.449768462854860995e-01, 7.849312502567525884e-01, 5.799246769442611971e-02, 7.772591792713247072e-01, 2.209585092008796714e-01, 3.625504396039445076e-01, 4.698945107218247541e-01, 7.536089880498985094e-01, 3.089306644457260886e-01, 7.969276745188523803e-01, 8.613116529444208025e-01, 1.750434239645215495e-01, 4.994940814292990194e-01, 7.983618868238658017e-02, 1.795773018120766784e-01, 8.395595865990951312e-01, 4.449897292442653862e-01, 7.430590626804575161e-01, 9.887976308289725402e-01, 7.260655237517316118e-01, 4.545625109498376837e-01, 6.746200313474902677e-01, 9.328824236243539181e-01, 9.589485843946796706e-01, 2.108804683644607270e-01, 4.188668385411195016e-01, 2.654868688493932094e-01, 7.954939634242407243e-01, 9.185145375331199569e-01, 7.855523734787354107e-01, 7.953196141638049221e-01, 7.742048898580121408e-02, 4.486578745798849854e-01, 4.666840380934696997e-01, 3.775540805213394302e-01, 7.165055779116128454e-01, 1.103732901121281668e-01, 2.988829860531337992e-02, 9.359948776495460310e-01, 4.593353155163693025e-02, 4.482060606224536059e-02, 4.158302729625807936e-01, 2.608973265599253688e-01, 9.203200141233210951e-01, 6.034926713530915920e-01, 6.796514667325825876e-01, 4.222648758574814032e-01, 3.903299675841130356e-01, 5.518903343997969557e-01, 4.099237912254801719e-01, 8.086419838070679766e-01, 8.353108094330199407e-01, 2.771919148968411406e-01, 2.769890650306432445e-01, 6.888102834251544904e-01, 7.582091695567555467e-01, 8.246466989101048917e-01, 1.308137918868455818e-01, 7.253463086255486081e-01, 5.556465977483651120e-01, 5.375994401485193475e-01, 2.853171608692890437e-01, 2.131761923485281096e-01, 8.309008237137361919e-01, 7.920158973188144991e-01, 6.444916067828876383e-02, 1.748263321076056753e-01, 1.413732163202423564e-01, 9.713394999012843201e-01, 9.885666594355700942e-01, 8.915852253455028853e-01, 8.654458760885082036e-01, 1.126181906267238464e-01, 1.619417818454963742e-01, 8.327100032632344107e-01, 1.529090263121772875e-01, 4.752271345745337494e-01, 8.352714695487351015e-01, 9.006476899710499362e-01, 3.187645182675711286e-01, 4.476297783294793664e-01, 8.079439186526258254e-01, 1.993810210722756771e-01, 8.971160571278964657e-02, 5.815928454298908701e-01, 7.998590202571240759e-01, 3.174899384514118794e-01, 3.803558722199566478e-01, 8.963122750885704759e-02, 6.346085297764403332e-01, 2.149433216913423095e-01, 4.368213677952942353e-01, 4.867305577007333683e-01, 2.482517208793828256e-01, 3.990306848558163866e-01, 1.313719721832899978e-01, 2.009256866893410487e-01, 3.868722402000225880e-01, 5.292493256015924352e-01, 1.493905012002522403e-01, 3.116912834454294012e-01, 5.175277477330031406e-01, 7.650868920309552568e-01, 8.200598339629623368e-01, 4.301606353282435569e-01, 4.802352197598183658e-02, 1.715544502538542126e-02, 3.423174800241221005e-01, 9.595356006699994333e-01, 9.934997023924215798e-01, 9.668429978899810706e-01, 2.630987915467754568e-01, 9.685489264163817946e-01, 6.340732976336684867e-01, 8.133449588410421871e-01, 4.689313260059190247e-01, 4.250596939620904235e-01, 6.316558409471345614e-01, 2.685499058216023194e-02, 5.288161870236346429e-01, 7.668305317324408676e-02, 3.025406033555572138e-01, 6.616320491132742232e-01, 4.588515059842067645e-01, 8.594054023063181225e-01, 1.460435845529892973e-01, 7.518059643008775383e-01, 1.074765219754627160e-01, 6.145918608525510196e-01, 1.332178384896710588e-01, 8.240531115487088609e-01, 3.710431976521015862e-01, 8.356340566632722844e-01, 9.424393274875475512e-01, 8.216906574889913939e-01, 6.586402164800081449e-01, 8.698874462565231447e-02, 5.714531351168264939e-01, 3.299058213306116372e-02, 5.537776411217532058e-01, 4.694551490451658315e-01, 5.535718549237230723e-01, 8.987439971116166770e-01, 6.891030405510760737e-01, 5.167333359778327750e-01, 6.643480121829591356e-01, 7.780855884263097044e-01, 4.363593326154733831e-01, 5.737194529206487426e-01, 9.649148979741891674e-01, 1.099628529353168238e-01, 3.256481444415924575e-01, 3.126609755714260808e-01, 3.489175449687443864e-01, 9.767914791587359868e-01, 6.026730650314335996e-02, 9.068808536247469423e-03, 9.178618433441870783e-01, 2.967866499149685033e-01, 3.539188000119112831e-01, 6.206613772512603600e-01, 8.515334202732757207e-01, 2.624980599097678224e-01, 2.679333344837591530e-02, 7.185309608037767637e-01, 9.108722415755121649e-01, 5.348076101896267476e-01, 7.063403883754951762e-01, 5.900229348407345364e-01, 2.694609228874072504e-01, 9.077228449562292356e-01, 7.863675983376572365e-01, 9.864011849262854792e-01, 8.267487275805455171e-01, 4.547841034971628060e-01, 1.342046884806049611e-01, 4.498636810292817589e-01, 1.719291811327196273e-01, 2.374255506979318364e-01, 3.862986699981520444e-01, 7.028240675960467643e-01, 2.475656756376939244e-02, 1.468108468599169658e-01, 7.168278006437174277e-01, 1.870794553896039771e-03, 2.758114298024025857e-01, 2.189016844114586302e-01, 9.739338196143191295e-01, 8.729664774578684838e-01, 2.240867278199993110e-02, 2.592262647248058660e-01, 7.729452394855058639e-01, 5.897896371229816026e-01, 9.621563923247762329e-01, 3.813935385862297078e-01, 5.687007607180454283e-01, 4.916721924264389476e-01, 9.833539524278208654e-01, 4.311767954911002176e-01, 4.938241868429883996e-01, 6.980536863682621496e-01, 6.363607900239055537e-01, 4.070108661136975781e-01, 5.560407305559612601e-01, 1.517841094367160804e-01, 3.381982729534903087e-01, 1.819928665144265323e-01, 1.113150970884542595e-01, 9.273774637379600394e-01, 4.779995481698839921e-02, 8.230796567155673760e-02, 5.831744853605842493e-01, 1.455735360442055870e-01, 4.180234357920387112e-01, 8.291004766375702495e-01, 8.584756837231580784e-01, 5.042032481018559054e-01, 7.595365924267643010e-01, 1.518020360775141318e-02, 9.981834616640937741e-01, 6.338442095339821281e-01, 2.459644117502680360e-01, 8.572419008170677479e-01, 9.298971503861671595e-01, 9.374976895252171705e-01, 9.828582550081009783e-01, 7.144021538432616669e-01, 5.063895123995840741e-01, 2.123133704730730265e-01, 5.415405230556656901e-01, 2.145691512187994018e-02, 4.882719053252740360e-01, 4.149172959059347909e-01, 4.605007868644897528e-01, 9.180767369038270731e-01, 5.397668034680237481e-01, 3.302670092958198689e-01, 1.398701736988468280e-01, 6.693768452268660241e-01, 5.132000272671637386e-01, 6.376606664571700112e-01, 9.097405285658699547e-01, 4.672053394573173479e-01, 3.669463247790661353e-01, 3.171434548113197249e-01, 6.924880068679307721e-01, 4.625584720266612271e-01, 8.131652419292214606e-01, 5.124824029352660348e-01, 3.931604085489743272e-01, 3.801172997158153710e-01, 1.458127709052902676e-01, 2.339293235684954120e-01, 3.538948893801249218e-01, 8.906176641153337181e-01, 5.543418367510893896e-01, 9.343567901887364080e-01, 3.563026926094697289e-01, 5.764646317783910651e-02, 3.614879643398835607e-01, 2.270453517562806556e-01, 6.539446176610449468e-01, 3.668563384910986658e-01, 4.240293925822820609e-01, 7.467835254035141146e-01, 5.017655053028063916e-01, 8.500196167574833872e-01, 6.821305012454023098e-01, 4.549723707605221601e-01, 3.026416212579341458e-01, 4.308816869685401230e-01, 4.421211800138804549e-01, 9.215552446552675026e-01, 8.388433015234633139e-01, 4.066884793078692217e-01, 7.170054672384635897e-01, 1.136924773119998289e-01, 4.628843907179430173e-01, 9.852834667063931073e-01, 2.242125410503761906e-01, 1.591597672837327020e-03, 3.737762726084775666e-01, 8.748782078463925860e-01, 2.858282156701764665e-01, 7.924668385290775108e-01, 5.560978910108133055e-01, 3.364200709243407861e-01, 2.559681919426455218e-02, 7.849676217354765173e-01, 5.261798594602012935e-02, 9.775456331308950420e-01, 7.187439582540757765e-01, 2.548111657528977503e-01, 7.364364945636642235e-01, 9.576528106675719076e-01, 1.641314006640140211e-01, 4.409595782285757881e-02, 9.111692154310013780e-01, 2.953176399403423802e-01, 8.841517456397678387e-01, 1.584899888597397777e-01, 2.059438778430080358e-02, 6.383475971138329319e-01, 1.664424400969914675e-01, 4.270976888053870102e-01, 9.058825698544206717e-02, 8.528994323230823515e-02, 6.764975075372416935e-01, 1.602946402318471963e-01, 1.376844407114942159e-01, 2.291280603832854812e-01, 3.799791900282251667e-01, 3.595632948589490008e-01, 3.741800417581923055e-01, 8.923443208668544457e-01, 1.562837410359918799e-01, 8.801772650172952073e-01, 7.362963572803796763e-01, 3.235620693289391614e-01, 3.208588130748019074e-01, 2.684932573265922939e-01, 7.707064579917773939e-01, 3.248615172095551951e-01, 6.571579258998193904e-04, 1.105939716507969156e-01, 8.734021937378715350e-01, 7.338803846201000791e-01, 6.326547221672215171e-01, 3.875624756589536868e-01, 6.995242539476824728e-01, 4.267627198731166471e-01, 8.550249795751111437e-01, 4.195794730169647990e-01, 4.881013299606021261e-01, 1.485336851020927496e-01, 2.872305184682470980e-01, 6.427659711501767514e-01, 6.633187202540168359e-01, 1.484889096106959128e-01, 6.201318908167463562e-01, 5.527275939531723914e-01, 1.547694847421565538e-02, 2.526658952949687453e-01, 3.140298723229724698e-01, 1.285286885759295838e-01, 3.059042824632225988e-01, 8.296201486984201567e-01, 1.857698442396494426e-02, 2.292842240708078405e-01, 2.290077904915732432e-01, 2.112762191850277027e-01, 3.138972273672400726e-01, 6.552987314143837727e-01, 7.048249583525302286e-01, 4.956095568191045131e-01, 3.589287854718471449e-01, 4.443986241805473747e-01, 3.999283622430909735e-01, 9.439713716013399258e-01, 4.578721406639238434e-02, 8.765769278873062342e-01, 8.612967582379638110e-01, 8.315874377241699866e-01, 9.969847526191842890e-01, 4.148633809892258717e-01, 3.772854074945693470e-01, 4.773175558397390050e-01, 2.096489409785335378e-01, 2.326944372215127843e-01, 3.842921162032463256e-01, 5.913551185714361891e-01, 7.543275262235215051e-01, 2.053674047953301940e-01, 5.925808444055497004e-01, 7.717098535085152866e-01, 7.952220908761412632e-01, 1.236138031273206622e-01, 7.950572496323616845e-01, 3.104502382098390800e-01, 5.567144671507957554e-01, 1.862838562478398921e-02, 9.471017612821679421e-01, 7.455122660201454199e-01, 4.526104817885968634e-01, 4.067400337624940132e-01, 5.698251357340002876e-01, 7.611473848644665363e-01, 8.375988796155103833e-02, 8.662005218424317921e-02, 3.821991339239626528e-01, 2.068999733012500883e-02, 1.963522426298274226e-01, 2.906402080561754087e-01, 9.984408267088837885e-01, 2.621105452383261369e-02, 1.603508672370632104e-01, 7.269786915186736698e-01, 3.099091592456912903e-01, 7.505211271450518140e-02, 9.730835414622832635e-01, 9.790757729219100591e-01, 6.160768137086415352e-01, 6.864167777903772139e-02, 3.305910754620737437e-03, 9.053111562415058211e-01, 8.835183421468003617e-01, 6.980921360434142464e-01, 1.733403159342532807e-01, 4.295366752158513157e-01, 2.578161138775470276e-02, 3.139456963353225438e-01, 9.635395910193931268e-01, 1.461211459101390275e-01, 1.260226213748097956e-01, 9.144372322368462536e-01, 5.934779210088207968e-01, 5.272277442173440853e-01, 4.959283194128849548e-01, 3.197967720381063739e-03, 8.354875075378885851e-01, 3.360143581965510107e-01, 7.569292195454704331e-01, 9.134730255489788009e-01, 4.512973918300296483e-01, 6.913538087678878785e-01, 2.471892045839024776e-01, 1.108508232843812280e-01, 7.294598489379438000e-01, 5.184949181705846843e-01, 1.187637277732988411e-01, 3.061793362231713944e-01, 4.009650765527256189e-01, 8.343491902845701080e-01, 1.689653871195151980e-01, 4.185743961112069478e-01, 1.595822904097972950e-01, 3.395835730140540631e-01, 1.590915171800666716e-01, 4.405746126534527685e-01, 1.330070302961531836e-01, 7.967722909046555113e-01, 4.866312550453463226e-01, 9.779418586757414600e-01, 3.100268958273459941e-01, 2.570131641175706361e-01, 3.586497553709304675e-01, 3.070756855071143931e-02, 6.629722032664056020e-01, 7.517794081705233555e-01, 1.756282127830751105e-01, 2.176506009979620737e-01, 3.368907956311986696e-01, 2.582748427030552851e-01, 8.737154941499284400e-01, 8.461964770928027679e-01, 3.444785304465179387e-01, 7.196715517878153889e-01, 2.338817815162888281e-01, 2.103179108723853691e-02, 2.989698296715270764e-01, 9.746435695096777874e-01, 6.334292667095254847e-01, 5.578268570863209597e-01, 9.630485638336269139e-01, 6.013650505280462299e-01, 7.387246160116746063e-01, 5.606949321775965833e-01, 5.634054831089850834e-01, 1.865541695816926859e-01, 1.295713366664219546e-02, 6.736154291437453923e-01, 3.317296351571000224e-01, 6.109011323505598723e-01, 8.504333874272550498e-01, 2.034215737511311239e-01, 2.772313601750164835e-02, 1.924743783819047038e-01, 7.653193425453628240e-01, 3.552219246878549064e-01, 7.179203092898331362e-02, 1.221382185762336370e-01, 4.894405947198088302e-01, 3.067304684502897838e-01, 8.174873743828943162e-01, 4.717801084226029840e-01, 6.050634738741350604e-01, 3.212193837376572381e-01, 1.105345547791315858e-01, 7.455725727723456764e-01, 6.213283065799023452e-01, 3.006208645293855040e-03, 8.499784812815190937e-01, 1.796049776674664422e-01, 8.142411409621271856e-01, 6.404895879369335021e-03, 9.089269479233489379e-01, 5.125470142350538882e-01, 9.243448910699508803e-01, 3.632169915171956642e-01, 1.584102513359120501e-01, 8.895867587422143785e-01, 5.147360005784792358e-01, 6.787964331933061812e-01, 7.038699617463559655e-01, 7.829945748751607759e-01, 6.296946504827791724e-01, 1.878129865687342970e-01, 2.748225664441512617e-01, 1.676420059863286127e-01, 3.209910729041723365e-01, 3.777713866842304924e-01, 8.484489785488792402e-01, 9.133846284996709475e-01, 6.751047361527365842e-01, 8.703049766060738657e-01, 6.026995581946992253e-01, 9.096610263020039611e-01, 2.145266672738994351e-01, 9.887227273879712897e-01, 9.948809368083972871e-01, 6.035359476140704782e-01, 3.092009635161085956e-01, 7.923604238341448447e-01, 9.969557985978516612e-01, 2.033488469647433405e-01, 9.583782179660610412e-01, 2.846833949595412028e-01, 6.264082110043189822e-01, 4.955377187923747373e-01, 3.640811921768962733e-01, 3.101809383399346531e-01, 8.152256613090320680e-01, 9.368878687584227816e-01, 3.297571469890503426e-01, 5.321891473852433663e-01, 4.184450310548329943e-01, 3.458710514090878596e-01, 6.982182027165602101e-01, 4.033287132611380610e-01, 8.224010937168219071e-01, 4.914638953208539940e-01, 1.624430533588649972e-01, 6.825444717663922134e-01, 6.236305120853441464e-01, 5.312681501827327679e-01, 1.522082659213126465e-01, 1.371795837784992866e-01, 6.095183067893330531e-01, 9.464814079883927533e-01, 5.311380452976685040e-01, 6.254610703745755451e-01, 8.382293934349356324e-01, 1.193330330072024104e-01, 3.591478641165246621e-02, 3.497617028425997754e-01, 3.935079594073335185e-01, 8.618257776532007863e-01, 3.592267557174962378e-01, 8.535345575857333777e-01, 1.673506664050417592e-01, 3.879267487725484020e-01, 7.363532458274266168e-02, 8.514435200213864574e-01, 1.528876245223020902e-01, 5.944499002103539320e-01, 2.261581540624218456e-01, 9.942340823755636547e-01, 7.060037124534375153e-01, 8.885096815696184036e-01, 7.094904785192288621e-01, 1.055863794974709197e-01, 7.144161747096186010e-01, 5.883243678846475921e-01, 5.976572299640955377e-01, 6.048867179548268469e-01, 5.618197484166034261e-01, 6.749563177298791850e-01, 9.061245640835545734e-01, 9.319699062894423180e-01, 3.585874345757671389e-01, 1.805554108675161140e-01, 5.882423122861296649e-01, 6.534154302208199372e-01, 8.470156233026837622e-01, 1.703402078025596789e-01, 2.652739448487412277e-01, 4.642111827824452891e-02, 5.593232133783883064e-01, 3.774718723835152057e-02, 2.826473939866987473e-01, 3.603319614549317373e-01, 1.113656497109377815e-02, 7.848173059418288577e-01, 1.050517128385339005e-01, 4.103100881871611927e-01, 5.236064796555153222e-01, 6.218002190907025856e-02, 8.523469832524611656e-01, 6.301489675302592852e-01, 3.893952361777417437e-01, 7.905604986861987094e-01, 3.388050303241728067e-01, 7.106354796009378694e-01, 9.436449699823118431e-01, 9.430251268088348793e-01, 6.582377813814499490e-02, 5.304919771708374032e-01, 8.075422282942632535e-01, 1.651558637723350362e-02, 8.798429008556998832e-03, 6.641639537235374258e-01, 4.333730698594436270e-01, 7.312362170955427620e-01, 8.471764487564369395e-01, 4.245639420749304227e-01, 4.180531813622429538e-01, 7.253237491699113804e-01, 7.819433513804132652e-01, 8.399580197994419573e-01, 2.892439129844124879e-01, 7.653049363415671547e-01, 3.798565278837074954e-01, 6.597013278131878301e-03, 9.497409089410440153e-01, 2.000792632474967039e-02, 3.157664433663829318e-01, 5.654661575300614640e-01, 8.552352484854851625e-03, 1.526250519005379058e-01, 7.569456574758702538e-02, 9.577359080439388217e-01, 1.791366963991310457e-01, 8.239893911847265273e-02, 8.210956557432671499e-01, 1.335221638583104220e-01, 6.572812898611074539e-01, 1.188266221552137791e-01, 3.759487324566949118e-01, 2.855638426260421747e-01, 2.768248032076338627e-01, 2.157520577980457932e-01, 5.105198131042866239e-01, 4.505236254539836116e-01, 1.018938975860093077e-01, 2.565334497424630600e-01, 1.603740412109323429e-02, 1.640356082444629493e-01, 3.478490915275200823e-02, 5.496628347077004983e-01, 3.994069929817697928e-02, 8.092218548350990082e-01, 3.112146028747907467e-01, 9.850761075058204197e-01, 1.931604447154705029e-01, 3.827881309427432766e-01, 4.773079270040126998e-01, 4.166529071247617733e-01, 2.424135258249629776e-01, 5.248758621787293910e-01, 2.403779239677451551e-01, 9.509954098248075693e-01, 2.080575196857988030e-01, 6.287111895686305907e-01, 2.960833338774196966e-01, 5.731078333660252211e-01, 5.333300534799266801e-01, 4.579535452840374776e-01, 1.072200914050285281e-01, 9.181564189675189835e-01, 1.797695559305390045e-01, 5.185026216485342232e-01, 9.845183374546960797e-01, 6.812903883769991786e-01, 7.772525682590919471e-02, 9.466390797428917425e-01, 6.331311914383513928e-01, 2.504712613630319940e-01, 8.343166534843483584e-01, 1.194351288243193504e-01, 9.128571100907983613e-03, 8.303227637119604543e-01, 1.268298743778825677e-01, 6.324884649504733947e-01, 8.160957573453136993e-01, 6.476081842874356065e-01, 8.385448644084182446e-01, 7.564424941348985021e-02, 7.322739678260521412e-01, 2.934000556858726849e-01, 1.385184759329252113e-01, 3.756934427548025424e-01, 2.348676149039096162e-01, 6.107973712778362874e-01, 6.753694442330843151e-01, 5.257933947934876340e-01, 5.657207564664411548e-01, 2.646292628985416062e-01, 6.923284171409542775e-01, 1.461235709867997334e-01, 1.514877850908509238e-01, 8.594176636087661469e-01, 6.302750172060976874e-01, 2.677546931050329149e-01, 1.501506949903046451e-01, 1.141445683755812207e-01, 6.863611484880620672e-01, 9.712352968367188311e-01, 7.405554403702965249e-01, 5.392376533429247415e-02, 3.238941335751883699e-01, 1.591503177396499658e-01, 3.205025315236874062e-01, 8.161080134962761523e-01, 6.237207470159730205e-01, 7.808997840672446955e-01, 5.520454500305026491e-01, 5.433146548525783492e-01, 5.706054294081759348e-01, 7.087608419927909909e-01, 5.080492077024543196e-01, 4.892518912808878628e-01, 9.289383048909527485e-01, 9.808912802167424339e-01, 9.456451460645379781e-01, 8.022649704457035513e-01, 8.724938727619051537e-01, 4.681508865116428275e-01, 1.073628228961114178e-01, 9.245034161823326713e-01, 5.054770554947171646e-02, 2.693424266033197512e-01, 4.688788435225941381e-02, 3.619099328446456765e-01, 9.919557085610160030e-01, 7.248492530937125089e-01, 7.251593116829444519e-01, 7.380741720611678769e-01, 8.720766593002329259e-01, 1.199943363908915345e-01, 4.246623356657644455e-01, 2.639472247920350290e-01, 2.118578805929279829e-01, 5.241335220438703146e-02, 9.361065267084762720e-01, 8.591326494987884255e-01, 3.525945524899723460e-01, 6.564254719671048788e-01, 3.699685804574981418e-02, 2.954410150905074084e-01, 3.626601290109029430e-01, 8.733633953394437377e-02, 4.054385208034687604e-01, 8.552751122740797074e-01, 7.273758911736730726e-01, 4.112750480359751437e-01, 1.467399401111834367e-01, 1.140164823439529344e-02, 6.017571208356986556e-01, 4.156673158986124439e-01, 5.540913688301892792e-01, 9.962790515750268305e-01, 1.985602787609510311e-01, 3.785338861499513152e-01, 2.500235648932064847e-01, 8.252132130720997161e-01, 6.100609324144543599e-01, 8.889703813355652740e-01, 4.607544543656282021e-02, 3.160614969028516241e-01, 4.566953793344310369e-02, 5.356963277929949196e-01, 6.545635429335497357e-02, 8.221548543898750117e-01, 5.516638573155462771e-02, 5.063973416891269785e-01, 2.720589854040469935e-01, 8.185318749335686039e-01, 2.774653632154914229e-01, 9.193121042219987160e-01, 4.282365474517242643e-02, 4.547669898963555557e-01, 5.187591067058844319e-01, 4.644415726498475894e-01, 7.165744731936449785e-01, 7.773355328551074805e-01, 3.412376645336737124e-01, 3.557421693114357630e-01, 7.469344526335005563e-01, 5.273962822119562244e-01, 8.316790699150934385e-01, 7.506616534594402756e-02, 7.421657739574355483e-01, 8.192639099007924530e-01, 6.443086182743180679e-01, 9.679389647170449917e-01, 4.202100009649246681e-01, 1.185293926791317481e-01, 7.245620174747011699e-01, 8.904766706125412101e-01, 2.994615308198624870e-01, 2.300740623095159643e-01, 6.154746967755661199e-03, 1.599920163166770604e-01, 1.464511265681860130e-01, 4.058538514602585967e-01, 3.393053749818755183e-01, 8.747275576361343008e-01, 2.129701613371416113e-01, 8.339687641079380764e-01, 7.532450700794124376e-01, 9.130740943538429022e-01, 1.362690238938276677e-01, 2.934508492389024115e-01, 3.161859782043419109e-03, 9.997172610949446314e-01, 7.770869303570280273e-01, 4.844995413909091719e-01, 1.248862722381739315e-01, 1.415483127281227382e-01, 1.672476232838569499e-01, 3.987433172177956564e-01, 3.562494911299036171e-01, 5.334602703834093740e-01, 5.999948255605288550e-01, 3.635592166465078101e-01, 9.910561769114976938e-02, 3.874328865334856209e-01, 2.914630956175562337e-01, 2.991756082923151538e-01, 7.417689510565891320e-01, 1.407636748591934439e-01, 4.770421676916537512e-01, 2.309125462085924729e-01, 5.595376954033981498e-01, 3.489498079779119744e-01, 7.652589473684574539e-01, 2.975521220158417468e-01, 4.443779544551341720e-01, 7.957784708448483180e-01, 6.291880550360018365e-01, 4.195750227123882792e-01, 3.576376283745871243e-01, 2.387311899651144431e-01, 1.228439441856414432e-01, 3.478599096399898061e-01, 5.889037960887193446e-01, 5.604051470890677455e-01, 1.050428740858636578e-01, 2.668431536340307719e-01, 1.682279353723721005e-01, 2.228228856394049578e-02, 8.984897836551607453e-01, 4.206587684701584284e-01, 3.658438878695520757e-01, 3.047304987066729587e-01, 6.113629136176405021e-01, 6.456515647890579412e-01, 2.281957637825339225e-01, 7.552027749051273275e-01, 9.908665625434562862e-01, 2.676583854121689088e-01, 8.297167534462360772e-01, 7.176650665398601747e-01, 5.061837827400755829e-01, 5.598819871504140400e-01, 1.115523537761428097e-01, 4.943212618567850991e-01, 6.387543214210232856e-01, 2.030156306520580767e-01, 3.696256280550875850e-01, 1.341229358430150176e-01, 3.589688959894005715e-01, 9.940006297907836297e-01, 4.177859766681563808e-02, 8.347450544110811554e-01, 7.034579737254610388e-01, 4.400819702318474191e-01, 3.553325594585045599e-01, 8.017951489747046079e-01, 8.264768168676199789e-01, 2.676758701499138415e-01, 2.578385284326670246e-01, 8.961694830311452142e-02, 8.823217831215999229e-01, 5.821859271939813958e-03, 4.910759654887521530e-01, 8.710421029403658810e-01, 9.154477326670262816e-01, 9.723100466969836209e-01, 7.662317039656066919e-01, 3.420903203750154664e-01, 4.711256721019814742e-01, 6.121978865147423843e-01, 7.579664355160107281e-01, 1.463298261121226962e-01, 1.732063540796904832e-02, 4.947403409190681556e-01, 4.728339008500277024e-02, 4.207579148962203863e-01, 9.419489232101754261e-01, 6.820550594767033070e-01, 2.689276041170368670e-01, 4.609019481698495846e-01, 1.862895227486972560e-01, 4.174496652635917293e-03, 7.595702074889888467e-01, 2.937668588893021515e-01, 4.689919309323680729e-01, 8.840313068881526792e-01, 6.487802523879878658e-01, 5.954968405178820978e-01, 1.094694444854899668e-01, 3.006033726515371929e-01, 2.461265119881796970e-01, 4.527358713394072920e-01, 4.626773079896814161e-02, 4.590474046678628128e-01, 7.083002514454832532e-01, 6.410230002181028786e-01, 3.320762369980075901e-01, 8.005956299351865146e-01, 4.428166640937845067e-01, 7.845332896920127475e-01, 7.157930987826913727e-01, 9.218854434633029227e-01, 2.289452183793025397e-01, 3.004364974683342848e-01, 5.564488097439119763e-01, 5.122246025736589825e-01, 1.219472934798765396e-01, 7.722963149504749047e-01, 7.478186579687802205e-01, 1.002065763273578547e-01, 9.986027882968762093e-01, 2.851454410015480390e-01, 5.407387392609970256e-01, 1.723637542410730306e-02, 5.588693393062705850e-01, 4.877777771311568311e-01, 3.876151209329092295e-01, 6.009693415682382245e-02, 4.410398538294309501e-01, 4.342119470935197900e-01, 6.112601275180671312e-01, 2.974528504866836842e-01, 2.415796283290429225e-01, 5.514770621441026366e-01, 5.243239232456152754e-01, 4.127550544792276677e-01, 7.925725097281861586e-01, 1.974091659873748184e-01, 6.434493450267638748e-01, 1.234292418453875467e-01, 8.718304359365615097e-01, 8.109249883472662290e-01, 5.246467938432373135e-01, 6.943209950548143716e-01, 2.591955448189986466e-02, 9.343869835437734750e-01, 9.266651702904302734e-01, 6.300110035319845814e-01, 4.323422328949473870e-01, 6.604103471263357283e-01, 4.797228619323732346e-01, 3.752496492775569265e-02, 8.263688135614111197e-01, 2.240168084922442571e-01, 5.718977941251557340e-01, 3.048909854750070370e-01, 6.237601267213447320e-01, 7.262176799007995509e-01, 3.236695456138973248e-01, 8.441016849621525431e-01, 1.840408507840809726e-01, 2.394452619220530376e-01, 7.651968303679377303e-01, 8.083275046348353809e-01, 6.599285806067762827e-01, 4.870921612679924850e-01, 7.052335839463454992e-01, 9.240726222990024163e-02, 2.674645599439943178e-01, 3.548244494977569885e-01, 5.343981179825020300e-01, 7.809649842859476276e-01, 6.376595779507059358e-01, 1.655351087991848713e-01, 5.444691315633253259e-01, 5.740106490738081796e-02, 7.574613732738543215e-01, 1.201706460423478395e-01, 3.916183768779046837e-01, 3.374618393393393756e-01, 4.688528057555185757e-01, 7.447379449150119957e-01, 4.378739415693544412e-01, 6.534681169221560060e-01, 7.447883156639945046e-01, 4.092697221844059374e-01, 8.862231313583238124e-02, 2.956521013563415679e-01, 5.828542276999042482e-01, 1.596618880870667723e-01, 3.109531582131107655e-02, 1.411755675869747761e-01, 6.130417132450849405e-01, 5.724534353551558041e-02, 2.500464233423521088e-01, 6.436943981597513798e-01, 3.932261405837021995e-01, 3.775972327452172816e-01, 4.261967200407891787e-01, 8.312707637040523956e-01, 4.473728033626100942e-02, 4.353455987550863271e-01, 1.050835118754577524e-01, 7.442176389583055052e-01, 3.181684578193470503e-01, 2.708447669105477074e-01, 2.146709552046702774e-01, 5.342308682303330558e-01, 6.020703068143933301e-01, 6.085338859420779123e-01, 9.953309910948475725e-01, 9.964302144970876851e-01, 4.181276054319089663e-01, 1.274834666874415934e-01, 3.461065538957611154e-01, 1.515579809068050843e-01, 1.980861820639483739e-01, 8.699902257651567217e-01, 3.582368404887885660e-01, 6.031275495543152454e-01, 4.268937516812079669e-01, 5.006196583783896203e-01, 7.251535812939210457e-01, 5.788230301568628722e-01, 8.423196416760647676e-01, 4.365407105291463363e-02, 7.520497695188572695e-01, 9.846439012890314535e-01, 6.104934006495013055e-01, 4.123620599042119861e-01, 1.275093976288926290e-01, 7.878080115540132544e-01, 1.428070882069950587e-01, 4.002754145498091942e-01, 5.240227517849448402e-01, 8.229922312315487432e-01, 8.553534147316826930e-01, 5.960790570923254483e-01, 8.574776225579716638e-02, 3.170416375321435942e-01, 1.432662282145144017e-01, 5.609147798631886062e-01, 3.355796941804434219e-03, 1.293616579924244392e-01, 3.164271705020146319e-01, 7.568065953138465307e-01, 1.215564963577042412e-01, 8.601123552181535459e-01, 8.108093417059808461e-01, 8.531867681944879100e-01, 7.029542869718206910e-02, 2.770476402242393332e-01, 7.395574382932211532e-02, 9.125293354374233168e-01, 8.048369614478401157e-01, 5.450882825583232005e-01, 4.511948234391159607e-02, 9.656193305858680187e-01, 1.893784229953368314e-01, 9.430341124966634681e-02, 8.768575182434092952e-01, 4.350993326561145569e-01, 8.914300795417468004e-01, 2.835208089731769965e-01, 1.389687832936299383e-01, 8.381437530482348519e-01, 5.530021913155550584e-01, 7.122323497155509386e-01, 2.900653165920466514e-01, 5.170653368049268339e-01, 9.456290627363962420e-01, 9.677680513997419798e-01, 3.078320069526276903e-01, 9.947999383985433042e-01, 4.229308254456076721e-01, 1.513016588962167175e-01, 7.278153601470798151e-01, 2.414507147325169190e-01, 7.010460742709890836e-01, 8.329991021881351099e-01, 1.387707160989171129e-01, 1.090549232876314445e-01, 1.413536533465459544e-01, 4.899380892476606908e-01, 5.582616242496389880e-01, 9.591369485155211774e-03, 4.008569097766590539e-01, 8.231693468856571272e-01, 8.946670053338973139e-01, 6.365483321867209110e-01, 5.494919964503161003e-01, 2.865830474061706323e-01, 3.675360509533608933e-01, 8.729656079856352724e-01, 7.921391587963758640e-01, 7.698479338817264539e-01, 2.053438218659919129e-02, 7.106609345787362475e-01, 7.456717623254273120e-01, 7.750427720269585929e-01, 8.022059045509882802e-01, 6.179511410073434963e-01, 1.093252329915851417e-01, 6.597761423428768479e-01, 2.985170470212223925e-01, 8.389136867394299257e-02, 6.982046536244991275e-01, 7.617389860894920872e-01, 3.564275213471500559e-01, 2.067635078770135304e-01, 2.080645514660923734e-01, 9.756256067789222941e-01, 8.526142262611678679e-02, 7.105736754729552462e-01, 7.147123921239486588e-01, 9.125274430820793370e-01, 8.077884645020412258e-01, 7.386364469523086784e-01, 3.069514044061500968e-01, 5.129647694376713307e-01, 7.742025904529974412e-01, 9.532485798866657811e-01, 1.760622292671389089e-01, 6.718419604528982347e-01, 6.507653878337039677e-01, 3.783420469581662560e-01, 4.113030067334866313e-02, 6.209864197394123764e-01, 3.710969038167311052e-02, 8.092051853902819669e-01, 3.748417688325325070e-01, 3.343642852941699495e-01, 5.196757612041013052e-01, 8.912674759849106287e-01, 9.332101428764157935e-01, 8.612553583033745186e-01, 7.067724473558582021e-01, 9.239816592740586199e-01, 8.276545405656809962e-03, 6.445155799806869812e-01, 7.375895675454063882e-01, 6.457722563820976758e-01, 3.886106185379784028e-01, 4.758348555889074238e-01, 8.319033141836525980e-01, 9.998901401483769602e-01, 3.961069278595596432e-01, 4.094049325930739641e-02, 1.078582888202983536e-01, 5.214120558852598508e-01, 1.719647837378522892e-01, 2.352876621445864069e-01, 2.483019423705809525e-02, 4.363384572314541465e-01, 5.296747202254876719e-01, 4.432609492325749745e-01, 6.701526667796877668e-01, 3.909366743623436946e-01, 5.576474192152124365e-01, 1.811513746661602697e-01, 2.790027167840728461e-01, 2.436518713250734880e-01, 5.624763290909650104e-01, 9.482707962777716659e-01, 3.714156380061796603e-01, 4.596761167938199777e-01, 6.314161411995177220e-01, 4.558460254964638025e-01, 1.853059468909687424e-01, 9.773495514590401223e-01, 1.857501372637924142e-01, 6.846975345189164619e-01, 8.989752610432892865e-01, 6.980740106729347305e-01, 2.860266980766347777e-01, 3.512512663143513847e-01, 3.122641944201526853e-01, 5.428877175653217257e-01, 4.116713217723686480e-01, 1.897223415210916864e-01, 5.435022596331238187e-01, 9.565866815294884473e-01, 8.916386932305856439e-01, 9.940536551793573983e-01, 2.040928657724377093e-01, 4.570857328914773587e-01, 6.742767666508692193e-02, 1.356567794232098334e-01, 7.290789100771160047e-01, 7.571102735763590719e-01, 4.495708782177081364e-01, 2.924855829743846503e-01, 6.354635263032463177e-01, 1.363870469229320481e-01, 9.207835358679412607e-01, 2.421368211445434904e-01, 9.173257740883338229e-01, 4.600507430664932951e-01, 2.328667805108900479e-01, 5.316570213773670339e-01, 7.387289556990815909e-01, 3.188430818217227736e-01, 9.029151885788160303e-01, 3.814958595338941993e-01, 2.489485584027794352e-01, 1.673839872623927860e-03, 5.816302906746521062e-01, 8.294702924703859503e-01, 4.933954739589884175e-01, 4.914821499382885928e-01, 7.791765761854050343e-01, 1.031350473798609349e-02, 7.814360709577343744e-01, 2.551456131350602480e-02, 4.370453030171272402e-01, 4.701990449318971810e-01, 7.931139077651105929e-02, 6.666555791699137201e-02, 8.667668629106896061e-01, 9.060262689488926546e-02, 4.805297854973937799e-01, 5.703739473498975476e-01, 7.600270696952229899e-02, 8.580561781286002998e-02, 1.762685185586393144e-01, 4.115538477703791220e-01, 4.446722582624629827e-01, 9.582365397106796800e-01, 3.832909689432210110e-01, 8.612223601785002902e-01, 7.849215546661232334e-01, 6.658554504951340602e-01, 1.569153999039869241e-01, 5.174254749810626164e-01, 3.613618189922468416e-01, 4.252062865783005630e-01, 9.493392700466286582e-01, 6.645836407075521590e-01, 1.327710202430303355e-01, 5.707445140115903204e-01, 1.914605090207153193e-01, 7.667533107619615151e-01, 5.505962300710865592e-02, 5.063229157284110382e-02, 2.711654306009149695e-01, 9.703670737773361088e-01, 6.962710582713879104e-01, 5.773899393851210649e-01, 2.863618547586240237e-01, 7.239121707512263804e-01, 3.639109869776017137e-01, 1.962186642554131222e-01, 4.166377141482597302e-01, 6.400697307927709356e-02, 7.353636287134700522e-01, 3.503433702318001775e-01, 7.718285502510935370e-01, 1.037051952164983470e-01, 3.806519172598589185e-01, 1.233608225529966712e-01, 1.386782744925307842e-02, 6.047006451544516548e-01, 4.118852579330379293e-01, 1.040965041638463040e-01, 7.454362216404474273e-01, 4.720168450793847947e-01, 6.065171799779814910e-01, 6.614552661702635672e-02, 9.945064152536512436e-01, 9.460584682738631956e-01, 9.165890730972401368e-01, 8.355258514408564485e-01, 9.806024843403791103e-01, 4.584549199216436111e-01, 8.074177246257462359e-01, 4.543990596721377284e-01, 6.455808791964179338e-01, 7.440976770699337939e-01, 5.910686945371019796e-01, 6.305938692835141302e-01, 8.140206249482279111e-01, 2.418991784421870295e-01, 1.183263298459418106e-01, 1.972664083700144955e-01, 6.069052566468646770e-01, 3.780080703936121722e-01, 2.213699921739455956e-01, 1.796837011336462897e-01, 5.556959658431805948e-01, 1.539903596848759548e-01, 3.449633060393181294e-02, 8.549811908271336414e-01, 4.309025053967723284e-01, 7.141094517216908244e-01, 2.710341906121555705e-02, 1.269235599674869153e-01, 6.176032021565094204e-02, 3.450502740726671402e-01, 3.220331733471930580e-01, 1.685692094912973615e-01, 9.463064232893199368e-02, 6.196759044448080234e-01, 4.018333384553224308e-01, 2.773421061492516992e-01, 2.147854431403245223e-01, 3.616269959871305506e-01, 8.818357766724790325e-01, 2.956373367985575262e-01, 6.978231687498867020e-01, 3.927516615108777587e-01, 9.603468424590169139e-01, 7.808490032388240021e-01, 5.607221970796870680e-01, 7.195861963972634001e-01, 6.568784660600571756e-01, 6.266092262756370879e-01, 3.772127520401357126e-01, 7.798670536819982679e-01, 9.292943228332946060e-01, 8.478972197755559742e-03, 8.528528867555741355e-01, 1.832074482661630865e-01, 5.999137942817658331e-01, 3.474089831120322769e-01, 8.158440230418217975e-01, 9.395313513804263161e-01, 9.630188906578878161e-01, 5.538594714229720939e-01, 3.498721164814799223e-01, 9.271361349670868002e-01, 5.182990688672702850e-01, 8.776744789731106833e-01, 7.395106774906939906e-01, 7.262119277347601765e-01, 9.528536039153212567e-01, 7.340893513750142985e-01, 5.654795163664221302e-01, 6.797237468976102814e-01, 4.838004839102301446e-02, 5.782496255825485543e-01, 6.481428584106878610e-01, 8.909432527864037388e-01, 2.115127775376720864e-01, 7.267353413924932948e-01, 8.802564741487401978e-01, 8.872699276494083742e-01, 8.637642851746097916e-01, 6.723756022255419351e-01, 4.650129418681430704e-01, 3.847449529221763087e-01, 8.308766203633739800e-02, 5.860144407860380378e-01, 6.348860350637693939e-01, 6.087378869838557804e-01, 2.403643268663868127e-01, 9.722747877330071287e-01, 9.292651836591157843e-02, 7.807314013557193899e-01, 5.634686396324529722e-01, 3.134859957075724624e-01, 1.382530313553005652e-02, 1.232877941329273419e-01, 6.729415253876323000e-01, 3.218533997015193826e-01, 2.105221804546832665e-01, 4.437628209983164318e-01, 8.806561942352213457e-01, 8.041698861262341902e-01, 1.686549065535476455e-01, 7.628403277727117127e-01, 4.702803549340411893e-01, 6.224708725198258019e-02, 3.145890680586921340e-01, 3.908674786596838535e-01, 6.052077996692102335e-01, 6.503407498116194896e-01, 9.961756337551899154e-01, 7.448170756817467097e-01, 1.461252360995494715e-01, 3.829817645069636539e-02, 6.412139183463355652e-01, 8.297051502327834616e-01, 6.165297469758213023e-02, 8.022378266687880677e-01, 1.385745247308925454e-01, 3.733865864292784109e-01, 3.754682732227487829e-01, 4.586353720726134980e-02, 8.622666841954407246e-01, 4.263256901068689930e-01, 3.153712279643130501e-01, 1.832565634834154578e-01, 4.711149592960953703e-01, 7.852482201611685753e-01, 3.340993714476481746e-01, 4.833177240360660432e-01, 4.698722161299833666e-01, 1.076988566107423828e-01, 2.324632022339710169e-01, 7.185792594041869041e-02, 6.052258211193160820e-02, 1.034612258313063471e-01, 9.430374028060108937e-01, 5.349525144128756127e-01, 6.818620958410914756e-01, 7.725193815582381829e-01, 8.610227264610256226e-01, 4.921083151501410846e-01, 6.600051780485447495e-01, 5.339384401638421762e-01, 3.350775295126776770e-02, 9.753995908697922212e-01, 8.185952765210764426e-01, 5.131525025108494287e-01, 1.730758837248404514e-01, 4.311253028495958262e-01, 5.197695813466783887e-01, 8.668772359659043802e-02, 6.293117745888777703e-01, 4.286554730374205757e-01, 2.107652762857660789e-01, 4.104663533480493731e-01, 4.737091548413847053e-01, 4.633308333137905466e-01, 8.006434497191362576e-01, 2.965096230744397321e-01, 5.554430050258682972e-01, 1.850229472742709325e-01, 7.539626196328961250e-01, 8.218175785893169216e-01, 2.651118931085745811e-01, 4.624395514714486205e-02, 2.064673606940809203e-01, 8.203613091636251520e-01, 7.358652158776057828e-01, 9.376449056335395271e-01, 2.943655512486334502e-01, 3.066014997778900714e-02, 7.623355782990410834e-01, 2.550998241364185737e-01, 2.754310594625185016e-01, 8.556944184737298453e-01, 2.040192416989746738e-01, 9.065458884415670271e-01, 6.915248245042777686e-01, 4.026887421201478801e-01, 6.537186468740623368e-01, 4.849921502942095008e-01, 1.141247524265678326e-01, 5.840692275462319172e-01, 9.170152557420293560e-01, 2.338131816134763896e-01, 4.687640364422540618e-02, 4.261049593085872722e-01, 7.508979339123836860e-01, 5.186533674930042803e-01, 2.630272627264749336e-02, 3.552834758885287103e-02, 3.653511598348877509e-01, 2.300814011131726844e-01, 6.819160583024207467e-01, 6.765978636788508860e-01, 4.665794136990854546e-01, 5.853806973277563275e-01, 2.045292763786014101e-01, 7.424185540203732947e-02, 7.566398272045504747e-01, 4.629448388444042384e-01, 8.955730636278247392e-01, 4.138791505430729489e-01, 8.361088503090647883e-01, 2.730769258374945996e-01, 7.496463721643829015e-01, 5.316197879857719188e-01, 1.663147807634459685e-01, 1.126037471852748828e-01, 1.731694535716646055e-01, 5.878295605125923862e-01, 1.065325640746930258e-01, 6.953620485965201770e-01, 8.151415956531260498e-01, 2.277991369373354169e-01, 6.809757210615067224e-01, 8.423957330961112655e-01, 1.069959849105172056e-01, 4.249260977572320575e-01, 9.758170495052381765e-01, 5.485845066610739451e-01, 4.803738346851843533e-01, 7.812116054416654576e-01, 8.261919407835355278e-03, 6.698958056353542245e-01, 9.742109292193076309e-01, 8.630610282000638067e-01, 5.192715845834280364e-01, 7.945239267367210090e-01, 2.533257522903441597e-02, 1.606308942134008766e-01, 9.418930727428670435e-01, 3.158022155149126098e-01, 4.180846151635415620e-01, 2.543829590340053737e-01, 1.126149451444564686e-01, 4.328850964201899076e-01, 5.442115184409325457e-02, 3.383408485375070107e-01, 5.037729148051006689e-02, 8.864070250224234115e-01, 1.885415845217730535e-02, 3.762745246921002373e-03, 6.083814737407484685e-01, 7.865131618209090236e-01, 4.610624334050444917e-01, 3.202248462640206461e-01, 1.022520671503213407e-01, 9.347082226891623158e-01, 7.919739423368375997e-01, 8.293146680095774270e-01, 3.670026535753851959e-01, 1.485529083681172424e-01, 7.323422365317066030e-01, 3.809543885680660158e-01, 3.613952058682561308e-01, 3.012654240883528289e-01, 1.877295907075114956e-01, 4.814707785993419531e-01, 1.975178807075052556e-01, 7.002050177544492104e-01, 1.660898534032774487e-01, 9.024111642306886782e-02, 2.570750639482752842e-01, 4.013973390089545790e-01, 6.215727630910172774e-02, 5.715962265001245379e-01, 6.125862116129911217e-02, 4.202347645931508446e-01, 4.810813310642193114e-02, 2.240977743104545783e-01, 9.652165428015219151e-02, 1.898095644295432760e-01, 7.492134903062757090e-01, 3.476822989428018373e-01, 7.012030232573800426e-01, 9.243226087808641134e-02, 4.422259587841490536e-01, 5.155004017860382870e-01, 6.283430966438696696e-02, 4.996457565963620118e-01, 9.021288084186367406e-01, 5.123568461718221168e-02, 7.914258988102439440e-01, 9.163355007366356109e-01, 9.682446987859305576e-01, 5.838085536518294871e-01, 1.500714296378609092e-01, 7.239336073494929691e-01, 8.353324129528818531e-01, 2.771169542209106496e-02, 9.411662796660081876e-01, 7.963143522204363389e-01, 5.390045992420012810e-01, 1.514946717575588186e-01, 6.149857174693228457e-01, 2.221763023555874961e-01, 4.169162069872104359e-01, 1.362256598501475624e-01, 7.272715552547981410e-01, 8.775623345658312147e-02, 7.565026446640038538e-01, 9.196140923731539463e-01, 6.997297054615017053e-01, 4.402183818356109057e-02, 9.301568329590602646e-01, 2.644337611729390969e-01, 9.697928915212304934e-01, 1.024933413100583141e-01, 8.127350076959092284e-01, 4.665094942778611475e-01, 1.058121100422420996e-01, 7.290160188775008931e-01, 2.935877465385948806e-02, 8.489480855937493742e-02, 7.940800285630527089e-01, 4.249061640546358820e-02, 7.471262934606796025e-01, 3.897590132937671092e-01, 8.960828535139993001e-01, 1.795437456921288311e-01, 2.597992045847345999e-01, 7.715026350954012901e-01, 4.830164894519486940e-01, 1.151935296703019834e-01, 2.524444960967681117e-01, 4.617384033904965990e-01, 4.505338366191122823e-01, 9.576388834329430111e-01, 1.762487014825754039e-01, 9.049555395367825383e-01, 7.540974742248236495e-01, 6.819467934734492198e-01, 1.029645702904239402e-01, 4.950337157438017832e-01, 7.250781701700139692e-01, 1.776409040825054353e-01, 5.441058314351860520e-02, 8.543358196650130409e-02, 8.980249780113421787e-01, 8.429820340135791845e-01, 3.434821139967190740e-01, 1.393199111350049424e-01, 3.841769935186626350e-01, 3.648929319770083390e-01, 2.406977721114030022e-02, 2.825131587432591629e-01, 5.312495309515208319e-01, 8.843924269625395018e-01, 1.566017137054617203e-01, 5.912781048354911473e-01, 2.980675459326179166e-01, 1.384370112505545203e-01, 8.503533469447520643e-01, 7.154879061249955763e-01, 4.115546357053271320e-01, 9.521998913701006373e-01, 8.042170674825587229e-01, 3.003371660157574397e-01, 6.615574074474733779e-01, 1.591678238933342815e-01, 8.355474538208730317e-01, 3.346024944386108424e-02, 1.078192836976510360e-01, 7.109482270614542188e-01, 1.992064648297318386e-01, 7.257939325784890094e-03, 3.739018660029425067e-01, 2.324745786832299599e-02, 2.590053920343682314e-01, 4.045411025987694642e-01, 3.975449852038143855e-02, 6.470355110257857145e-01, 4.271149361736890637e-01, 9.275679442078834658e-01, 3.164905425844026232e-01, 5.514944443084782710e-01, 9.286166256452412782e-01, 9.832395767243414797e-01, 6.183532707771077774e-01, 4.868502914137807225e-01, 1.809509572035758462e-02, 2.665540455467516057e-01, 5.191632806013091184e-04, 8.731304208918412302e-01, 6.128962766918030214e-01, 1.110480108669940763e-01, 1.246863631450629145e-01, 2.844872122130556180e-01, 1.866570784345410183e-01, 3.023973590845966397e-01, 3.194834891702770796e-01, 6.911401832360207775e-01, 4.454066049813782957e-01, 5.416375164713356227e-01, 3.660696096786287823e-01, 7.346218825269408281e-01, 1.648248265489870301e-01, 9.069677529475701494e-01, 8.954618501079643078e-01, 3.506349915692419383e-01, 7.909595898237837819e-01, 5.819399052276604811e-01, 3.466279661539075629e-01, 4.396978056449485917e-01, 7.317904271261227445e-01, 3.266333493687513800e-01, 6.152228761110005717e-01, 3.510982101956619528e-01, 7.347804602776367711e-01, 5.214010835893779783e-01, 6.840308680154624232e-01, 5.169330292100675628e-01, 8.984605056411318902e-01, 5.688610871541598391e-01, 2.498814763501578107e-01, 3.266076849844856689e-01, 2.639368711103038390e-01, 4.880540527588193567e-01, 9.615508542014962190e-01, 7.245506091566670248e-01, 3.198877931159598842e-01, 1.828066981193292306e-01, 5.529499382040601319e-01, 4.154269185886323990e-01, 6.923059386798697812e-01, 9.945280863655459047e-01, 4.689514787668993059e-03, 1.420351961022672249e-01, 5.944589946650650214e-01, 6.537122118201237342e-01, 2.819211734193248775e-01, 7.249767362441048579e-01, 9.762800234859023707e-01, 9.112356477013508482e-02, 7.287770951208181192e-01, 9.006955247444601298e-01, 3.005381085032720612e-01, 4.779951785067786396e-01, 4.888172448097025669e-01, 2.972194790369114270e-01, 8.148148504115406698e-01, 5.438594569199801665e-01, 4.826405552170799362e-01, 1.707938081990859058e-01, 5.584176840798920072e-01, 2.971791369227464452e-01, 7.813453865330037829e-01, 8.657066338717683829e-01, 7.687465365328678413e-01, 3.140398606117741909e-01, 9.509833727059141539e-01, 4.738998017985340816e-02, 9.498096079784178469e-01, 7.319183497431189789e-01, 3.215137546911906452e-01, 1.259780887144096306e-01, 4.556595579919496264e-01, 9.790265407864092717e-01, 1.079905067689602288e-02, 8.825937251889759416e-02, 1.910061515973850987e-01, 6.635304249837880031e-01, 3.467224784950080352e-01, 8.595850233468294022e-01, 4.078059084603538054e-01, 8.132074301695851881e-01, 4.946395928823352772e-01, 3.011328997167035393e-01, 7.501598957094676168e-01, 7.980263168321521938e-01, 7.547532354697715773e-01, 5.273833679817570008e-01, 7.896434313391968995e-01, 7.552111899862884448e-01, 7.913150941401565497e-01, 4.767889469834218907e-01, 1.402189865756708065e-01, 1.389305209751479919e-01, 5.143264417145688716e-01, 7.696838397383730657e-01, 7.883719557186150695e-01, 6.349919106528121304e-01, 4.952468788740619354e-01, 5.033868775131400408e-01, 8.548661280870771817e-01, 7.873011230810030847e-01, 1.583224032649494240e-01, 6.913112269034309421e-01, 3.156559618742020845e-01, 5.805379174235490020e-02, 8.629100540945315867e-01, 3.167073788267432688e-01, 3.454086109927755333e-01, 9.971254358868629486e-02, 9.374072697592030767e-01, 4.233285091833816072e-02, 8.644680851792962972e-02, 2.582598851171780119e-01, 6.915935336184431126e-01, 8.903635856717513342e-01, 6.721502171014035465e-01, 6.139647442247075926e-02, 1.240589388083249492e-02, 9.239738917196081980e-01, 3.017838050144887596e-01, 6.900124474835678257e-02, 4.824824396470732135e-01, 1.315673137661413639e-01, 6.925914115531209836e-01, 2.556213213257320094e-01, 4.777455683481648396e-01, 5.282413047456501198e-01, 9.226497069731904865e-01, 8.461690751606418259e-02, 8.499773866102959818e-01, 1.783528104981069728e-01, 5.295268785588880256e-01, 8.170551684697560102e-01, 7.651406028957213890e-01, 5.664000397809266785e-01, 7.487531913367233560e-01, 1.251601525132048642e-01, 2.841239180146439350e-02, 1.811921163116433364e-01, 7.052342851411740332e-01, 8.416277927552702209e-01, 2.244146731253781613e-01, 9.982648422053563841e-02, 6.138277592415325445e-01, 8.890611369411457465e-01, 3.504507128600378718e-01, 3.332768483020691619e-01, 4.773341732521427794e-01, 9.755506334718314077e-02, 8.622045725435856234e-01, 6.309032184851491865e-01, 4.491229577027346931e-01, 9.704399591382730783e-01, 3.806677784324878910e-01, 3.322000645114794315e-01, 7.925151214766790186e-01, 2.152155482203051418e-01, 2.105702851520925289e-01, 2.551451615780478410e-01, 1.482529095756508486e-01, 4.421834526696036827e-01, 8.573391735614110942e-01, 3.633754438905163475e-01, 3.182713974120706668e-01, 6.946812417754787417e-01, 6.060683905411127226e-01, 5.658621507435974696e-01, 5.388017225817631761e-01, 5.412510020589846871e-01, 2.587873815626700047e-01, 4.198079211539334499e-01, 3.589161776724498765e-01, 3.651647324907241199e-01, 6.863359078522168755e-02, 4.575559305037667501e-01, 5.085407390333152033e-01, 2.702652732038328121e-01, 7.514970452219494890e-01, 3.305393794088660742e-01, 2.980464714619308064e-01, 9.598156813974559332e-02, 2.774282383239003447e-01, 9.892397075471828227e-01, 5.664655601516369599e-01, 2.044903201969961448e-01, 6.994025722100296605e-01, 4.464825610246445642e-01, 9.855705940324381853e-01, 9.106400470544755432e-01, 7.132230671661519139e-01, 1.452065784618351563e-01, 7.233658833471251492e-01, 2.490236419840510251e-01, 8.643685681970333379e-01, 2.030134689955505056e-01, 9.481034142988291613e-01, 4.873467144234784332e-01, 2.757355217918618373e-01, 9.188914764122101397e-01, 4.527723201627100735e-01, 3.007604729323570814e-01, 8.347396176428300008e-01, 1.301241084223303014e-02, 9.651191476403538916e-01, 2.501310968051705386e-01, 1.338266428102410643e-01, 7.851389199741070080e-01, 5.057357924945182770e-02, 3.758999423635198123e-01, 2.774257538047140703e-01, 2.874292310858946320e-01, 7.949536784955965052e-01, 4.379879780207879270e-01, 9.015942236841760493e-02, 8.818634496086880104e-01, 5.761685376795153690e-01, 7.057517091104763551e-01, 9.364910273425349763e-01, 1.226717675969324350e-01, 2.561554981231241035e-01, 1.528148700592828202e-01, 1.460374289469374420e-01, 8.427155179545005037e-01, 9.400027646704327555e-01, 5.236371313210702594e-01, 9.046803622877854778e-01, 1.868347336028574612e-01, 6.481083265851695918e-01, 4.673893195603662232e-01, 9.905175698544822493e-01, 3.490509392044272574e-01, 6.178229076790633378e-01, 2.081003795974968595e-01, 8.827868412795656372e-01, 1.725826347110496484e-01, 4.414851513111998083e-01, 3.377610476849859378e-01, 6.875868345790588920e-01, 9.925216429360840253e-01, 8.675867720838376096e-01, 1.935906404555943483e-01, 6.017377595581119287e-02, 9.825971256632711759e-01, 5.097263600618892609e-02, 5.022504261180310570e-01, 2.994647371409339121e-01, 8.194695810841124972e-01, 2.442183648405898966e-01, 6.452774617408604807e-02, 8.973876312121837895e-01, 7.701717716845773998e-01, 9.405827169831463275e-01, 9.918435190903263088e-01, 8.530121398637954266e-01, 6.535583286099213574e-01, 1.816181086950906243e-01, 7.553185072270973688e-01, 8.765353531796908904e-01, 2.840780127154566292e-01, 7.996212941483553382e-02, 9.734754552298566788e-01, 7.891072913386941723e-01, 3.136770733861383720e-01, 1.437212365959616156e-01, 3.232413441208605298e-01, 1.004605101694548974e-01, 9.008134306338072550e-01, 5.398117108981427270e-01, 3.017423904454807349e-01, 4.887263976517787212e-01, 7.011938070910581633e-01, 8.876336312182109278e-01, 3.299313470520898739e-01, 7.814684236953542973e-01, 8.183290570846468714e-02, 1.244678739530614697e-01, 5.401984740406129415e-02, 5.194797584226218401e-01, 4.615224666126739317e-01, 7.644253980107943436e-01, 7.113602130309933935e-01, 9.876374098603161178e-01, 3.769591171393338325e-02, 9.672780860723508845e-01, 5.680761254987112263e-01, 9.622153277721555709e-01, 2.180034694764724224e-01, 8.291837473598954178e-01, 8.488527447453309005e-01, 4.670640471466371013e-02, 4.010699891026432984e-01, 2.893978860808220643e-01, 4.869319648215891805e-02, 7.578384252586302106e-01, 6.783763625888402649e-01, 4.935463996851633950e-01, 5.674230096067168772e-01, 5.337247531106774634e-01, 4.730442266574989008e-01, 6.050458900645209193e-01, 4.894566404592821940e-02, 9.255865672433309654e-02, 8.606426549192063291e-01, 9.886963932573763492e-01, 7.106579540116444438e-01, 6.966810721910396409e-02, 6.236110928369213990e-01, 3.257901269779033826e-01, 8.825844539485669937e-01, 2.373653206906650437e-01, 3.925306963968630547e-01, 3.234149618025772277e-01, 4.578890539139536808e-01, 8.764197534958819702e-01, 6.394285341962104852e-01, 3.228958976320723262e-01, 1.729193223444681626e-01, 3.530424958494935428e-01, 1.743741444826890363e-01, 1.610123120818601761e-01, 6.219464527192454240e-01, 4.413780697243009365e-01, 7.452726283834262277e-01, 6.039538993217665741e-01, 8.567686986307188057e-01, 7.434526171660316152e-02, 2.347446036727440788e-02, 2.798463971005497597e-01, 9.828281075667436584e-01, 2.470351814626824405e-01, 2.136136405699851915e-01, 3.707661734998715652e-01, 8.948768458853980645e-01, 5.958674134476990014e-01, 1.583359906792530247e-01, 1.860726334408618343e-01, 7.713650015273576521e-02, 7.455487423373101663e-01, 3.457350928479303587e-01, 1.345877565770140782e-01, 8.055356673149636215e-01, 3.874813913224521844e-01, 7.234944609570131968e-01, 8.267494759316956765e-01, 5.230860104208114869e-01, 3.793908933698797448e-03, 6.206742329842507289e-01, 3.610667028098107356e-01, 4.865136589098458253e-01, 5.648009405596300381e-01, 6.253610605723777249e-01, 6.965563710392720376e-01, 5.719972374768100831e-02, 7.806099685804457344e-02, 3.087283716591169291e-01, 2.806067544269514810e-02, 2.741350939239561302e-01, 5.650977098561148493e-01, 1.349019156640482719e-01, 6.157750677391254229e-02, 8.468486327250344115e-01, 8.413915429186051842e-01, 7.653685635147544630e-02, 5.894773086936198059e-01, 3.342151098860496328e-01, 1.232150132631059519e-01, 7.910592386521896335e-01, 7.886030913740038617e-02, 1.872914269151246813e-01, 8.577688637181293263e-01, 8.985516874086765249e-01, 6.604643953607798323e-01, 8.407412871508856966e-01, 1.523709552461450234e-01, 8.713751906185087659e-01, 5.959955326024016231e-02, 9.629695074073336691e-01, 1.796651527679279381e-01, 1.858176585839315109e-01, 2.852928407921207637e-02, 4.473925348413994030e-01, 2.754209934547601976e-02, 7.673680994159532975e-01, 6.093013662783610673e-01, 4.676795877242647115e-01, 1.938570617264389340e-01, 9.997910677656679512e-01, 1.780086447111596248e-01, 4.740003677054407394e-01, 9.250880411900824773e-01, 8.562279895370706884e-01, 4.691189004483559688e-01, 2.535654200528184021e-01, 1.647011404364582265e-01, 5.725669395580671450e-01, 1.394863471880128936e-01, 3.375666148397374888e-01, 9.714536078201835290e-01, 7.163652219518473752e-01, 2.453674877937170040e-01, 1.224574886614916702e-01, 6.273924072820289410e-01, 2.971988030800953862e-02, 7.479592863242074952e-01, 9.696448576228384741e-01, 7.052649612278597546e-01, 9.634817341200903051e-01, 1.530269594599867888e-01, 1.266624467800580855e-01, 3.737481441328078247e-01, 7.543244868747537302e-01, 9.817706325015768121e-01, 9.301025240109488390e-01, 5.564651291020251689e-01, 3.550083781774571873e-02, 1.521966357398994163e-01, 5.140857935396613287e-01, 9.095712978893910616e-01, 6.586000686680981708e-01, 2.965762598095736946e-01, 3.717094302219992596e-01, 3.172186218541814262e-01, 1.573293372484505237e-01, 4.752868211051695102e-01, 4.568631455221532356e-01, 6.867129285654365312e-01, 2.787772297176320802e-01, 7.447769079275362580e-01, 2.159721870560218082e-01, 6.913775996907692845e-01, 1.600241092873408433e-01, 3.012608780545820708e-01, 1.179268438642895322e-01, 3.836229771258823917e-01, 3.900897915605402999e-01, 1.218999876752960981e-01, 2.131160976089155612e-01, 5.152583656437764725e-01, 7.089125710155094739e-02, 9.197781023132803879e-01, 8.451073602799910045e-01, 9.046854903718375418e-01, 9.093493465854746161e-01, 5.082622288936314847e-01, 6.993937026214276376e-01, 9.161156282305699117e-01, 6.851587220228556596e-01, 6.063451684017436838e-01, 2.280236108628632685e-01, 9.919039145938775004e-01, 4.829966887669560616e-01, 2.378773705408355754e-01, 4.769377323300106331e-01, 5.498386228380715002e-01, 6.128652422901637031e-02, 6.617719739728246120e-01, 4.926552532431383025e-01, 5.730419442424167231e-01, 4.688382615695258493e-01, 3.840434656286737525e-01, 3.800303655427879068e-01, 6.414674295867662801e-01, 2.171545742639849896e-01, 5.001501618322375942e-01, 6.452980507288992307e-01, 3.208305250410934395e-01, 4.169425597488094493e-01, 7.173378258606226687e-01, 4.572428730830916943e-01, 2.095815620836556370e-01, 5.472810099959001251e-01, 7.636878631320437316e-01, 6.812860710221295690e-01, 9.023937185522710180e-01, 1.340225728690949136e-01, 8.343161787768426096e-01, 5.945605951131837097e-01, 6.486529109894356715e-01, 9.813549306005586725e-02, 2.338955141055009956e-01, 6.998572841776330433e-01, 6.845379508873515872e-01, 9.391784858235767697e-01, 9.957604066713349189e-01, 4.925574427443827341e-01, 2.387383562114049340e-01, 6.656835986798571581e-01, 5.883196303359284896e-01, 9.951445829734392179e-01, 3.736860997030424514e-01, 2.884362963826613280e-01, 3.506030476352108849e-01, 4.766013880336222863e-01, 5.177402256118068813e-01, 8.880257908644024756e-01, 8.977169538570110019e-01, 8.579067669003792584e-02, 2.091024383404897213e-01, 2.595156000903442450e-01, 3.712419247717799742e-01, 7.828037723418433957e-01, 2.717880852032201755e-01, 1.726543538935831623e-01, 9.502112458558246155e-01, 2.612023442031025100e-01, 3.360663324868961022e-01, 9.370204209683857810e-01, 1.040127277171354336e-02, 3.982348442968499103e-01, 8.832690772889525421e-01, 2.046339027114135456e-01, 4.196375149279328864e-01, 3.107687742590259927e-01, 1.664451901689159019e-01, 6.313637180850157904e-01, 7.186957118149317481e-01, 8.156946559033292354e-01, 8.201980451807229233e-01, 8.876193707450217435e-03, 2.549613521132397809e-01, 8.470813959920893144e-01, 7.061846012101847814e-01, 8.539548725500694104e-01, 7.795141106411285215e-02, 3.025077787103718219e-01, 9.585181573969107915e-02, 8.278992846441113329e-01, 1.547423343725992106e-01, 4.901921581488620783e-01, 8.706923427156206818e-01, 6.951219069425441932e-02, 9.149535205617613798e-01, 5.003758839361597266e-01, 4.224830269437543917e-01, 8.613561886255239886e-01, 7.504101964006981706e-01, 2.314960326913689248e-01, 8.346516838168406283e-01, 9.571046899617607906e-01, 4.635572374198914658e-01, 3.675755303602377122e-01, 6.143038298291583210e-01, 5.649747870655462689e-01, 5.178155549300659244e-01, 1.668030076769035919e-01, 1.333572070773390017e-01, 9.797767485616717953e-02, 6.950799701958667587e-01, 4.832107476739417873e-01, 4.409508765696513177e-01, 3.464176626630949274e-01, 5.897341374367992550e-01, 9.191497295997052008e-01, 3.150237988370492292e-01, 8.620369101261183831e-01, 6.856969329992435025e-01, 7.217382660273379269e-01, 2.269025950930068092e-01, 8.661884626958781253e-01, 4.611544426560764132e-01, 9.127142448460342505e-01, 3.507206856432411590e-01, 2.285883285357300787e-01, 6.238545774061663440e-01, 6.846038080864226272e-01, 2.190221030153606807e-01, 4.346149618302985740e-02, 8.490893675874775504e-01, 4.982986261053395927e-01, 9.969796670802663074e-01, 5.297282755511492081e-01, 1.579463761971077185e-01, 6.024616560380406938e-01, 2.146956495934929654e-01, 3.421660118210327339e-01, 5.099221377507305863e-01, 1.476819851373959436e-01, 6.265339742088451569e-01, 6.148499361324563095e-01, 9.598541496079425750e-01, 7.968519857789995164e-01, 5.279686336451755446e-01, 9.285150860649300508e-01, 9.059249783527217881e-01, 7.242229819112628864e-01, 3.228761896555032429e-01, 1.770472397246124208e-01, 5.189032153615619203e-01, 8.263657991886873555e-01, 9.853726541008095419e-01, 8.554609570589385426e-01, 2.723150302246994947e-01, 8.318637899248316758e-01, 5.920289188132796809e-01, 1.286946865438858278e-01, 5.164622101655704650e-02, 5.546291528984340635e-01, 3.629632976746581807e-01, 3.387252181335938528e-01, 7.198615843369627898e-01, 1.129023958147199469e-01, 6.252039705915054535e-01, 6.322857776433186139e-01, 7.115670778615140746e-01, 6.047924587973605437e-01, 6.689395607941888144e-01, 9.178037650815351611e-01, 3.736438584663054341e-01, 2.942131002248490890e-01, 9.129810120012104013e-01, 2.737918839884158628e-01, 7.305999499342424874e-01, 5.273167446071984621e-01, 6.867759015079948348e-01, 2.921286913347796999e-01, 7.335626360608346053e-01, 8.089518934646141579e-01, 4.640265580389086875e-01, 1.418426008264726534e-01, 3.050005560314935638e-01, 9.813153743973954679e-01, 1.811713512818426131e-01, 3.807336477973743971e-01, 3.586865846116112366e-01, 5.727009697024930679e-01, 4.900954805663595426e-01, 1.570256505184379758e-01, 6.964586637760182830e-01, 6.478387786030881390e-01, 7.741274736446372984e-01, 1.889419389049341036e-01, 6.065904502810041121e-01, 8.854014354839697676e-01, 1.035460760488811083e-01, 5.079358310873124394e-01, 1.558205538824463110e-01, 5.519558940533098035e-02, 3.108600137064484459e-01, 7.778479435866523239e-01, 7.139997394577624057e-01, 5.871532040906751737e-01, 4.214234520834106434e-01, 1.176052562492709841e-01, 6.085951121376150796e-01, 4.655187222733768171e-01, 8.480524038114000129e-01, 7.589362920790492240e-01, 5.086845955063005187e-01, 3.841202627415148396e-01, 5.783049176840919792e-01, 8.583366365992493030e-01, 7.288284303194454417e-01, 7.368366380596004239e-01, 8.332315951419270172e-01, 3.357915791262315874e-01, 7.544954447319929258e-01, 6.000587740000272730e-01, 8.550619881625487473e-01, 2.659027906701854072e-01, 7.021477419176782586e-01, 1.863198697345094523e-01, 2.136986566737098248e-01, 2.767845335487085223e-01, 8.576441926340321320e-01, 7.221804640368955086e-01, 2.333702633903758927e-01, 3.336092580747140879e-01, 3.293097518957346370e-01, 2.655596156618761708e-02, 9.205922418810460472e-01, 1.723158786803697939e-01, 9.361827458012349501e-01, 8.676176558612765932e-01, 2.590695509493982085e-01, 3.419531822678090194e-01, 9.158001893257211590e-01, 6.819095584126174669e-01, 7.037031494631575956e-01, 6.220704111667585412e-01, 1.619293229848757787e-01, 2.981879635981766752e-01, 9.524659580298527883e-01, 2.975995763318504128e-01, 1.048146376641160699e-01, 3.056653121915623439e-01, 3.187375268457083299e-01, 1.430725972912741673e-01, 5.536729203773049779e-01, 6.995887852534148355e-01, 2.322705573777270605e-01, 5.286475983028041670e-01, 1.284277173447968823e-01, 1.042473136273890377e-01, 2.344493012492261108e-01, 4.734898354268676224e-01, 5.543305706242214193e-01, 6.470221792275421269e-01, 8.232299012036328190e-01, 4.348861149443165042e-01, 3.616975084585757894e-02, 7.695475611755941969e-01, 1.436709055265725510e-01, 8.196971735559012151e-01, 4.581024793714596338e-02, 2.150436676379996748e-01, 6.748259271975775020e-01, 1.883779253840059120e-01, 4.622179245976634210e-01, 1.591283587635704821e-01, 2.194786070519182120e-01, 4.644513303731298004e-01, 3.493137716403931226e-01, 3.971357311484765562e-01, 4.031684976794296937e-01, 2.666080585616066312e-01, 6.268832090791484069e-01, 1.613937586495793608e-02, 2.103714456587158499e-01, 6.160153560414644014e-01, 5.359148168211450569e-01, 8.194145387857874052e-01, 7.773938647982711059e-01, 4.872068705104223296e-01, 7.089012707072690489e-01, 4.565116355674371240e-01, 1.466004365675126486e-01, 8.969878334233710726e-01, 8.504887972552103159e-01, 9.460094174905814279e-01, 7.948843667612102148e-01, 1.837103302742471023e-01, 5.357117207653431246e-01, 7.196065618084344084e-01, 3.851161807133606230e-01, 5.523216112269291322e-02, 6.201957552884201919e-01, 3.856195319204660382e-02, 2.810443007533223181e-01, 4.425795420991270879e-01, 2.049252017087683717e-02, 1.191066290399331873e-01, 1.534106651908674623e-01, 6.080124934185254792e-01, 8.132641765752562923e-01, 5.870157750945910191e-01, 1.152906481869111766e-01, 7.625897685963551886e-01, 9.306350063271299211e-01, 9.897863685597114713e-01, 8.772762338996844544e-01, 6.890510806395108157e-01, 3.535900682893847180e-01, 6.668209492473340383e-01, 2.929077157592822056e-01, 2.648090715261379735e-01, 7.415746372337985726e-01, 4.886011432119720110e-01, 2.419799909412769789e-01, 7.370776587427468884e-01, 7.666608053876931006e-01, 7.076162337441463945e-01, 8.352212649834925839e-01, 9.525832113745963392e-01, 6.873584840782016592e-01, 3.157640544566910762e-02, 8.325989543129593828e-01, 4.564773374980160003e-01, 5.125305164339410968e-01, 5.452709799218488085e-01, 4.916956689225258637e-01, 2.578440020907295516e-01, 9.104456103209608298e-01, 6.190129446870890062e-02, 6.510877747344321342e-01, 8.974897101913434927e-01, 2.660705321688223157e-01, 1.354657316346927765e-01, 2.886601269432167993e-01, 6.277454507007570461e-01, 6.355208808852409463e-01, 6.144222068350146948e-01, 7.833930664855699721e-02, 5.272198859732767362e-01, 1.775331673667169055e-02, 9.070039840118913066e-01, 6.250752271105873836e-01, 2.573970791117427548e-01, 5.551685009293816364e-01, 1.098691731736129718e-01, 2.539175541845246631e-01, 5.593398282182795445e-01, 4.408130235794353036e-01, 7.792917066003486326e-01, 5.973194582091939653e-01, 6.248505488476217007e-01, 2.934557363700693311e-01, 4.001218151947207313e-01, 3.547481715381059497e-01, 3.457666089330811987e-01, 5.304669199809659563e-01, 4.451119577837163721e-01, 9.028835246751656385e-01, 3.513458287809889113e-01, 6.615599850588297359e-01, 5.172440671834152015e-01, 2.961356093177409110e-01, 9.741223091304670456e-01, 6.392145949461293108e-01, 5.803579049140226154e-01, 5.222078091974950986e-01, 8.467774904859037832e-02, 5.256569257569263520e-01, 7.411148726170121437e-01, 7.880487019962759132e-02, 8.786691393136155659e-01, 4.130268420010622110e-01, 5.315515754966184669e-01, 1.574212578471805291e-01, 7.527099874001309532e-01, 2.842377629078925438e-01, 1.430130251332026314e-01, 7.884171382819386009e-01, 1.771398633750676799e-01, 6.328379501919899619e-01, 3.452848075207474166e-01, 6.837292125881618832e-01, 5.004018855666214627e-01, 7.579696265552170464e-01, 7.040845642479887090e-01, 2.292113111716134188e-01, 9.713821354360786531e-01, 8.120078476345460317e-01, 7.562218265069109435e-01, 9.066629812385826881e-01, 6.884341437684216025e-01, 9.727871299592302234e-01, 3.159338769801337543e-01, 1.913238027293952259e-01, 3.842651650492815985e-01, 8.504499376916013764e-01, 8.849661493062179751e-01, 2.337438606419843801e-01, 6.025653476304322353e-01, 5.134894909341159996e-01, 1.539984301807260092e-01, 1.853648668610152483e-01, 3.682681679616105486e-01, 7.598327428872463374e-01, 4.104924786399740677e-01, 1.491853263130691054e-01, 7.933095875583924261e-01, 7.811603492067743515e-01, 6.907012464995779810e-01, 7.394042283827247930e-01, 1.158666655788508359e-01, 4.071792587239185801e-01, 2.595219543954978003e-01, 5.378355356940619364e-02, 9.266077775956262919e-01, 5.101262264734954810e-01, 4.760043974283968415e-01, 5.562058298560241809e-01, 7.938483570424483826e-01, 7.730818025307747421e-01, 9.762883723351488685e-01, 2.139639861964221790e-01, 3.018965645824377431e-01, 2.499302618005845855e-01, 1.118526367386551007e-01, 7.643747028181037129e-01, 9.813120087519301427e-01, 9.855614279767949126e-01, 8.360813385712531076e-01, 8.392890485483941454e-01, 8.704656635159108147e-01, 4.329845456161410255e-01, 7.267323755069414748e-01, 8.904327211709319734e-01, 2.939509011445148312e-01, 3.000773623020294711e-01, 4.631312395816111760e-01, 3.871237648028595935e-01, 6.791057735473304824e-01, 2.302805718241331123e-02, 4.166550274472552995e-01, 8.425912822771070010e-01, 2.128698637002404415e-01, 5.256980574500684789e-01, 2.315631704504028388e-01, 9.505246133748248560e-01, 7.435359966587851144e-02, 1.116105135837858198e-01, 1.929036523967763150e-01, 3.680952095107339894e-01, 8.179542385461827658e-01, 5.491299056643131893e-01, 6.690704500064699189e-01, 6.643529896448012728e-01, 1.933825038651592124e-02, 9.361184958879010809e-01, 2.432056319979841730e-01, 1.795082875847452408e-01, 2.602727579548390624e-01, 4.087489337126784528e-01, 7.485505202546041126e-01, 9.091177329900013149e-01, 4.663029748545311493e-01, 2.478090682552914203e-01, 4.301786065628055988e-01, 5.613468412578473954e-01, 7.768980172044448462e-01, 1.414120242097609559e-01, 1.523793988172309211e-01, 6.983257442131399761e-01, 8.350682430272064749e-02, 7.668420233987326140e-02, 1.000741174943282630e-01, 8.058785134844863585e-01, 2.710779065619324246e-01, 3.339473487170204757e-01, 5.707432620475343388e-01, 9.380930812586605327e-01, 5.589844454157891773e-01, 5.721863176796122552e-01, 6.710001771635945578e-02, 2.581793665202167798e-01, 5.831941350705417172e-03, 6.224615247894020875e-01, 7.302772420759865435e-01, 1.979485030418750569e-01, 4.997660119532165712e-01, 9.001294636170179553e-01, 1.148448546671373832e-01, 7.765231023707057645e-01, 3.529990736073846946e-01, 1.180951635708835656e-01, 7.665086801048914475e-03, 9.630760925285611895e-01, 1.035267365719899635e-01, 7.376450538971637272e-01, 7.357440439785626340e-01, 5.985114682759528071e-01, 1.395334820100449791e-01, 3.955449047740588475e-01, 1.203676634240802290e-01, 2.920889293156589961e-01, 9.578675586213400983e-01, 7.321018619067189981e-01, 5.533152758415900152e-01, 7.918850923168962996e-01, 8.233844891707065017e-01, 4.085916784930536672e-01, 9.759227376915855512e-01, 9.318863489235330588e-01, 9.618394268824052018e-01, 9.685553991655893036e-01, 9.370382508050476567e-01, 7.513568259944266581e-01, 5.279184153275772173e-01, 4.565280301166017574e-01, 2.907533804525173071e-01, 4.856735841954952226e-01, 5.060711557041160935e-01, 1.206735069053884724e-01, 4.698235366800009027e-02, 6.635937590314349155e-01, 4.988613182920622474e-02, 7.455210515537018523e-01, 4.703226594266818328e-02, 5.737927284518825610e-01, 7.273150819924396604e-01, 6.818460806561872367e-01, 9.818014176061439224e-01, 3.299402075986587191e-01, 9.011697874562215604e-01, 9.546196248262803774e-01, 4.938145531280162537e-01, 6.557512352636369890e-01, 3.592903757164347400e-01, 2.558212032384075685e-01, 3.897679579531720950e-01, 6.510180260810641273e-02, 9.446156458444177062e-01, 2.840202687676842697e-01, 2.684848302869546899e-01, 1.108557289996257994e-01, 5.475078658409333610e-01, 1.388863751255821066e-01, 2.291680258412627513e-01, 7.744485504616558380e-01, 1.095420087832166406e-01, 8.263688866540143119e-01, 2.045053205187430390e-02, 4.930649449607628632e-01, 7.238565289353215970e-02, 8.407173239102865292e-01, 7.265230061201886913e-02, 8.846186708049497138e-01, 7.026397757149989154e-01, 4.771743028069623804e-01, 5.944867421631915283e-01, 8.489812225694136349e-02, 5.651704555592395041e-01, 5.504721086739476910e-01, 2.284118848686188530e-01, 3.266327893604720201e-01, 8.609788435811541740e-01, 3.787864111887778718e-01, 7.149011490227087373e-01, 2.999326703348619838e-01, 5.488776845917522351e-01, 8.230398495312728213e-02, 3.559860103346993432e-01, 7.919496841813378207e-01, 3.825383961894695539e-01, 8.144176940319994840e-01, 7.537664759086754040e-01, 7.813579182729514239e-01, 8.579121169146083359e-01, 2.541195626539922148e-01, 4.889264394661365087e-01, 1.650321768081535467e-01, 7.469729925769004186e-01, 9.643950250422664849e-01, 6.871406114752869054e-02, 5.127343459002712267e-01, 9.486408415506316638e-01, 5.409361238737375732e-02, 9.734874140815734656e-01, 9.360270588910094558e-01, 3.522889824637540634e-01, 6.909217981903787997e-01, 9.221089732183676002e-01, 3.665516883358229672e-01, 6.106677169534737715e-01, 1.276977165671098202e-01, 1.056457594337329754e-02, 7.099785114882175563e-01, 3.811711231591841109e-01, 3.819479724207104909e-01, 7.772830171024175394e-01, 6.099815266938344305e-01, 5.799001613413999889e-01, 2.232286596149157809e-03, 4.601627137835223591e-01, 4.728644931481090774e-01, 3.488185423349839942e-01, 4.770380018256805688e-01, 5.597434738488306083e-01, 7.473166713718082388e-01, 1.991235782350737893e-01, 8.994368072770239086e-01, 6.071205225604168199e-01, 2.462413539854945987e-01, 2.159827303070117610e-01, 9.766151222036218993e-01, 7.333959802106112535e-01, 8.760275842949185598e-01, 4.101386081088878588e-01, 9.675899388452079419e-01, 8.566199422209937187e-02, 7.927251155832142349e-01, 9.210871128214072057e-01, 1.809990023690810357e-01, 5.133885045654048573e-01, 6.255309037064485933e-01, 7.839294401464115269e-01, 2.463789960248344846e-01, 7.275601340194877142e-01, 6.778418904427740976e-01, 4.438956386615357519e-01, 2.606664437238033205e-01, 3.723115041524118207e-01, 1.077881929712773551e-01, 3.028723883761474944e-01, 7.941856853053105292e-01, 1.579123955930307188e-01, 2.728435126922981735e-01, 5.661864613922162892e-02, 2.754391452106846883e-01, 6.471868099014624343e-02, 9.497435423113333164e-02, 2.202298909691262629e-01, 4.223532910305908827e-01, 9.669762666615847602e-01, 1.597439500280295466e-02, 1.876156322000178400e-01, 2.119331657611543684e-01, 1.482127714818950726e-01, 5.459473787716380144e-01, 5.245020091655628880e-01, 4.464096215593596484e-02, 1.047367846483575615e-01, 5.336302060885814713e-01, 5.058621972999349792e-01, 5.657934997148770240e-01, 1.591127960980531220e-01, 1.932280149475199826e-01, 6.983920404068154619e-01, 9.284272015356407337e-01, 4.583151288557163472e-01, 3.115775039453605455e-02, 9.733437359823792212e-01, 5.707293934982147210e-01, 5.232523245242466370e-01, 2.304438065556691229e-01, 5.102317545747576677e-01, 8.560722492973694697e-01, 6.887480896953011023e-01, 7.213722978074564862e-01, 6.939152424419230414e-01, 7.067406627656591667e-02, 4.291239352787863948e-01, 6.735241981716745263e-01, 9.556937969374016406e-01, 8.871936734565137872e-01, 4.320833879215881801e-01, 7.559566989281432670e-02, 6.978206711464163270e-01, 1.303381111166812024e-02, 7.870752449555510344e-01, 4.091206005378161814e-01, 7.142823427830682359e-01, 8.864012432597995206e-01, 1.491901915409282742e-01, 2.427524436769180893e-01, 6.269339299400071841e-01, 4.926231127213864802e-02, 9.953401664136780624e-01, 5.468552977572581630e-01, 7.325583968952276148e-01, 1.972736903245146112e-01, 1.503636179697018516e-01, 3.878084920449555439e-01, 1.943564577785078795e-01, 3.143535059918972641e-01, 8.292267602874647814e-01, 8.965365866623435931e-01, 3.912896190868399016e-01, 8.740336094825716939e-01, 1.166263519925000436e-01, 2.410885433049088089e-01, 7.815760454268856350e-01, 2.447450737228787920e-01, 7.859666295567673266e-01, 4.024542878243723698e-01, 7.354947363935222526e-01, 1.303743691590072695e-01, 8.687831484264774140e-01, 3.926504839648887746e-01, 5.995218111671657413e-01, 7.994220819236933506e-01, 1.525051768982945699e-01, 7.587725675422802851e-01, 9.370345038403559146e-01, 8.529518307910238795e-01, 3.029917926821553698e-01, 9.852702363434795441e-02, 6.308736431923001042e-01, 9.037607739929639505e-01, 6.245289459372765917e-01, 7.924336156125519892e-01, 2.786814195041108499e-01, 3.633954963663294513e-01, 1.732457383411230012e-01, 7.563760564781577544e-01, 9.497192816138200211e-01, 9.566827213122114371e-01, 2.200089275260386223e-02, 6.329948823978435168e-01, 2.996524493191782268e-01, 2.474176864056754077e-01, 8.220160273873119428e-01, 5.254341521458635311e-01, 5.379472939559337696e-01, 9.352612821390415832e-01, 1.437190282628525717e-01, 6.283386119957933280e-01, 3.820932647591130937e-01, 5.303971211763729432e-01, 3.294308538703576983e-01, 1.478554453338434271e-01, 7.914029658976208526e-02, 3.219961057010510552e-02, 5.750480432504971873e-01, 3.831946105723650353e-01, 9.804675289369528812e-01, 1.745214650307297388e-01, 7.387891940707161931e-01, 5.624652027847013569e-01, 1.292463151722245129e-02, 3.552695851865119714e-01, 9.236496051175300259e-01, 1.455980692536229804e-01, 9.450361098525404957e-01, 3.354278467169393152e-01, 9.713142986173056714e-01, 5.973087920510179449e-01, 2.107844354914537588e-01, 9.775850088514834724e-01, 9.350658589659807118e-01, 7.636311981194784382e-01, 4.330567815120751063e-01, 5.241573978227489494e-01, 7.175641965940315892e-01, 9.202547429438768800e-01, 8.817733035392336660e-01, 6.576156804442516712e-01, 2.874061409459326422e-01, 6.198546288473261168e-01, 1.931111104025558800e-01, 5.851868046033195103e-01, 9.630572968697695968e-01, 3.429101947486296043e-01, 9.175341230615714494e-01, 7.926822452247642703e-01, 4.444054774156579873e-02, 4.550087244324955704e-01, 9.232564044041344786e-01, 1.443807535227138727e-01, 5.573410722148434138e-01, 5.291883186518390181e-01, 6.977275805101025297e-01, 2.632121549184979203e-01, 2.457301272720990859e-02, 5.571196207710037429e-01, 5.298779144811178732e-01, 4.435544763756434916e-01, 1.141542988584423324e-01, 4.703414365152046583e-01, 7.858059705896918157e-01, 1.118769364730882732e-01, 7.864366520143352135e-01, 3.238141872708367175e-01, 8.132351307693892473e-01, 8.791595038483795976e-01, 5.211802729732051276e-01, 5.512306666935952171e-01, 4.242911805911222523e-01, 2.717151430013542424e-01, 6.896825874182113125e-01, 7.179273461649682275e-01, 3.431407060933340247e-01, 3.164441412836045409e-01, 1.172687242358734228e-01, 7.933053590096803553e-01, 7.950201069002030829e-01, 8.172089603252322143e-02, 5.753778295208151344e-02, 8.151997007283228180e-01, 1.316617847450116674e-01, 8.300568958114866724e-01, 4.805468956726615115e-01, 4.344448635169605999e-01, 9.118543764682014441e-01, 7.311268033867245053e-02, 3.654395436015095422e-02, 2.858403434353904427e-01, 4.444291064158816251e-01, 8.024479106137303308e-01, 4.280375066323497402e-01, 3.257358045767853594e-01, 8.071593314302406563e-01, 3.215434996701854731e-01, 4.080934326374935361e-01, 7.258156885164210870e-01, 6.926477867333067362e-01, 6.836297466861156469e-01, 3.619632071753179914e-01, 6.169572687760095375e-01, 6.122286450032418115e-01, 3.573550288313325773e-01, 6.435500971318723895e-01, 8.487303200882367893e-01, 5.150400014885790911e-01, 9.408484863395041309e-01, 8.876736055677905690e-02, 1.710755082365473523e-01, 2.073960030245703967e-01, 9.639013485865179920e-01, 9.985320741213301599e-01, 7.852971668298630581e-01, 3.062740037356689871e-01, 5.038111280699426597e-01, 7.473347381446158177e-01, 5.282427181288803508e-01, 5.990820853554275072e-01, 2.829147819564745148e-01, 4.775619201478879527e-01, 3.076334228712498398e-01, 1.820719055237764450e-01, 3.025032580460511045e-01, 1.313652413125954155e-01, 3.512331696966222716e-01, 2.159277732785406245e-01, 1.031250055078569705e-01, 3.463196506081690496e-01, 3.140875317496624186e-01, 2.454584960722884235e-01, 9.792896597110224421e-01, 1.134791022982850617e-02, 9.055141046832509977e-01, 6.752494491938969556e-01, 5.740162611859186415e-01, 5.996793091655963082e-01, 5.605610320552345538e-02, 2.397191388793566968e-01, 8.231182212125530695e-01, 9.599078310238898792e-01, 5.883667072964518735e-04, 9.501796166086697859e-01, 4.194307634319370259e-01, 3.931687967999434319e-01, 5.869636628674222006e-02, 8.291867991069076238e-01, 7.447615863219406163e-02, 2.960084473174495745e-01, 5.995620098694633970e-01, 7.224901871999773739e-01, 3.040973634814508886e-01, 7.379822597123297800e-01, 9.121453423873381317e-01, 8.189229824589566720e-01, 3.837566469493272625e-01, 5.030955236044956091e-01, 5.607778267802294714e-01, 4.149431535954176825e-02, 6.627992456077054229e-01, 9.205034429764574755e-01, 9.665007340377196332e-01, 8.188267270129402364e-01, 2.516362468675792385e-01, 9.788649236874785720e-01, 9.744866840576662526e-01, 1.015634360135474618e-01, 3.771971550058401124e-01, 2.406143704633027236e-01, 9.088008909980306305e-01, 6.721461297409460078e-01, 3.797948037709699132e-01, 4.943822313266884594e-01, 2.470389620912200324e-01, 5.618369562985592314e-02, 6.881027900571318190e-01, 1.001306478784576015e-01, 9.856121571695036776e-01, 6.843020761500885341e-01, 1.652217470214933925e-01, 1.556295554229437939e-01, 9.513153936782345887e-01, 3.020693021763110053e-01, 2.885778196053161992e-01, 6.756788130057839181e-01, 9.448361127385898062e-01, 1.334378273427651029e-01, 9.199565045765492055e-01, 9.027149876787171623e-01, 1.905035344507347295e-01, 1.628773459784172567e-02, 1.565752355479903546e-01, 2.282027666244314246e-01, 2.044853506622018313e-01, 8.472020338908724524e-01, 1.883897440968738957e-01, 1.582398435187164221e-01, 2.177172488273864115e-01, 3.108952681649388428e-01, 1.519606327710074367e-01, 2.416026114106142042e-01, 8.000572373974580431e-01, 6.255860853245830411e-01, 1.491307977209241700e-02, 5.272277973477288437e-01, 6.350452580507504052e-02, 7.588740933556030743e-01, 4.958159806341014969e-03, 8.146531883727341217e-02, 8.158940850762541608e-01, 1.161100368591056198e-01, 5.751162185452636244e-01, 1.553365581823351604e-02, 6.784342890084353872e-01, 3.471951806148517727e-01, 1.966882794988301930e-01, 9.916335570533694188e-01, 6.191506909344796084e-01, 5.067909656665090523e-01, 1.774379466362507318e-01, 2.884589703170423181e-01, 8.765832231390520146e-01, 5.500858809062226795e-01, 1.549965158549236888e-01, 8.935312687613294891e-01, 1.681478726536070056e-01, 8.492135952093884388e-01, 7.035326054881934077e-01, 4.280578059419974379e-01, 9.100613970151631982e-01, 4.674022486720434411e-01, 2.427291648952735192e-01, 9.299842896694531236e-01, 8.943324531581353654e-02, 2.492984240390217626e-02, 9.377597674168103303e-01, 7.655326920531241308e-01, 2.345917885570699135e-01, 9.800596891536809130e-01, 2.480648789704671398e-01, 1.214184227599768989e-02, 9.015053726732077388e-01, 6.324627010992068810e-01, 5.872455520218902159e-01, 4.231833579848178206e-01, 8.401232269599976377e-01, 5.650449889019718563e-01, 6.609900273632902667e-01, 8.102246156908412544e-01, 6.035004845229732240e-01, 6.634868362456425306e-02, 1.606283647343819398e-01, 4.364656006901856955e-01, 5.047563628524475154e-01, 8.259836073299616777e-01, 9.699698197330081095e-01, 9.574606739538031874e-01, 6.044947279325937339e-01, 2.155535684915957928e-01, 2.358527733379599534e-01, 9.974120243742347069e-01, 4.720523441987483637e-01, 8.717053222686336200e-01, 3.604679093596133144e-01, 5.491515447974333330e-01, 3.398672298942063685e-01, 4.830945205848827945e-02, 3.421631569180930699e-01, 7.863915927773689196e-01, 4.951956646498099079e-01, 7.277778974757396213e-01, 5.646624623505431817e-01, 1.518772512363730509e-01, 7.686480476549285568e-01, 4.574570340130610369e-01, 4.532103174691697878e-01, 5.841382050033910867e-01, 8.323843922188136624e-01, 5.553866180004090047e-01, 9.532629129956542435e-01, 6.215454640946272979e-01, 2.519550511448044872e-01, 6.948640240708220395e-01, 6.424638317197460813e-01, 9.018778503423072745e-01, 8.916666298594863038e-01, 4.235371414680377256e-01, 9.831669064233934385e-01, 8.987226279083351255e-01, 3.325049723760777898e-01, 2.186847206980781222e-01, 8.249035377409266179e-01, 8.064097146340843958e-01, 4.604794794245856693e-01, 3.939567078141497092e-01, 1.474006414975170820e-02, 7.687651544546090232e-01, 1.584099075613808472e-01, 5.499740627374452018e-01, 4.169774749903524813e-01, 5.301648357786834520e-01, 7.491983597146943952e-01, 5.857871921358439593e-01, 1.138539852187250290e-01, 4.740630868605328896e-01, 8.474949491202495855e-01, 2.552077296294684716e-01, 4.323576710261747835e-01, 6.040446151713770861e-01, 9.626148731714535556e-01, 4.585626849066089528e-01, 1.229044874687009988e-03, 9.454324477449655983e-01, 4.488718216508242875e-01, 5.793654170655474500e-01, 7.032510657240274021e-01, 8.538196054566083992e-01, 2.214175251054089910e-01, 8.526738216094866818e-01, 9.349234626907035328e-02, 3.669374071917175795e-01, 5.446649913210532823e-01, 1.770891706963787990e-02, 8.363975975230595328e-01, 1.090892612973040077e-01, 2.612319528235504396e-01, 2.356666867635193174e-02, 4.588316611905700615e-01, 9.844562755445085411e-01, 6.638225673549520423e-01, 6.841382938712027295e-01, 2.524635618365759226e-01, 4.292963775302448548e-01, 3.687762087567488800e-01, 2.512520727350384675e-01, 6.654709696080305381e-01, 2.313081652124828469e-01, 4.271411004224712205e-01, 2.844029865921142708e-01, 9.727578464194496233e-01, 8.524967732699731959e-01, 3.029804442819150068e-01, 3.615057346933360227e-01, 4.568584658300766516e-02, 9.567325326888442838e-01, 8.902159181751972961e-01, 9.107474285948481407e-01, 7.814613436258095458e-01, 4.747320040406811659e-01, 3.173905599263142641e-01, 6.058760134326024449e-01, 2.496053313282229347e-01, 9.546539973595351558e-01, 4.516605022059980712e-01, 2.910446913232344057e-01, 4.851831367112221516e-01, 3.641102704552138247e-01, 8.298360297504084881e-01, 6.308163700516415950e-01, 6.494534466836607844e-01, 6.572539650766380526e-02, 3.358422042811743946e-01, 2.858024216707066856e-01, 7.580906995203803289e-01, 9.306006257178088825e-01, 8.088259905774463077e-01, 6.672823838068626667e-01, 5.102057528968437783e-01, 9.936048164304033259e-01, 5.970079753974374404e-01, 9.200786395345619262e-01, 1.782212398472269865e-01, 8.806101628983509233e-02, 7.982388714433152899e-02, 7.832899016009565729e-01, 8.744249583211827215e-01, 8.179133772957791759e-01, 6.720395985348512902e-01, 8.774866660790704431e-01, 2.436071147371427284e-02, 6.181385630659521624e-01, 2.589465195332412706e-01, 9.548335417807327641e-01, 8.984534382025690658e-01, 3.203331008667944513e-01, 4.985567771506647650e-01, 8.790865208262839126e-01, 3.529147830672377806e-01, 1.314176574525882102e-01, 9.503639413775439859e-01, 1.291073832801603594e-01, 7.408162699477561786e-01, 7.610231513917018464e-01, 2.971976839070641918e-01, 4.750787115142986461e-01, 3.635174890222201971e-01, 8.607834877791968875e-01, 6.119500712375024465e-01, 4.297484820452330267e-01, 6.848858624521564353e-01, 1.776002767773997848e-01, 8.719674292837829022e-01, 9.842946238219575372e-01, 4.365287522445601143e-01, 4.860748605484753737e-01, 1.441904030016474547e-01, 3.400000408918588124e-01, 1.757725827252235862e-01, 5.845515309228225265e-01, 7.525155426404456227e-01, 3.400832976658048346e-02, 4.526062191097889320e-01, 3.223767557755407576e-01, 6.460748289319756532e-01, 6.566333832718672658e-01, 1.951865085578277093e-01, 6.324295968493138798e-01, 4.083863362393379548e-01, 2.770584640488459316e-01, 2.420387579599708461e-01, 3.150600287517235643e-01, 6.094764463749929861e-01, 1.958333192787737043e-01, 2.364791782634738382e-01, 3.204246805419158073e-01, 9.825279780154403397e-01, 2.705024787088445293e-01, 8.095360210239480603e-01, 7.842211381855334063e-01, 8.237578122782386325e-01, 9.131540971039642240e-01, 4.801503652744084638e-01, 5.781861085429607083e-01, 4.875299008190915329e-01, 8.619394359965592001e-01, 3.938130652951594146e-01, 6.015931968573901001e-01, 2.242136276849044929e-01, 6.557328148339558460e-01, 3.894457462512133650e-01, 5.543341267218327567e-03, 1.705273984492226003e-01, 6.230117956082799058e-01, 9.006851543538342275e-01, 8.209961162269283630e-01, 1.275731411708961593e-01, 7.413850279792245646e-01, 9.402756445491975423e-01, 1.040280440433816525e-02, 5.620514183313551904e-01, 2.534790480251282729e-01, 7.337954892282153585e-01, 7.843881335108014996e-01, 4.594409287895028227e-01, 2.106509688405483471e-01, 4.505715950943766090e-01, 1.752946003532641350e-01, 3.195350140348134360e-01, 4.055385533864850345e-01, 4.858982359177658195e-01, 3.873630160874917960e-01, 6.823394951636699846e-01, 9.283216709955832702e-02, 5.858003449491521186e-01, 5.863799598010875913e-01, 1.436644384467545554e-01, 5.968124562340196837e-01, 4.667283419356069163e-01, 7.521668857318946078e-01, 8.154050785861189921e-01, 9.414774933866865148e-02, 5.882025221551453464e-01, 1.374089941761908740e-01, 6.916260994446794541e-01, 2.660484669991332041e-01, 8.906897164399442401e-02, 6.726409331207188202e-01, 2.012182204605685032e-01, 5.178240385315888705e-01, 3.920933762525343758e-01, 4.617938626786685097e-01, 7.449286564288422063e-01, 2.895960737323092227e-01, 5.730641894163462924e-01, 6.415486988028763493e-01, 9.426482427010948184e-01, 6.031216119330111702e-01, 4.157167787340131371e-01, 5.135955695118850084e-01, 3.233035801318133728e-01, 7.523668607354625504e-01, 1.623994102250220228e-01, 4.280087731537568496e-01, 6.997344422846853984e-01, 4.727689853762583327e-01, 2.019681049115259197e-01, 8.167305638892340403e-01, 3.987923205453454689e-01, 8.669340165946222143e-01, 5.170394632962999060e-01, 2.726670501689537618e-01, 4.930452134272607645e-01, 7.871596174661047440e-01, 8.769911905084231130e-01, 2.199873816195056231e-01, 2.855497785405811118e-01, 5.692594464337445981e-01, 2.076276871199793927e-01, 5.379630345726327256e-02, 1.639032095237458186e-02, 7.901773690016380969e-02, 8.037666536997012390e-01, 4.230187349270051467e-01, 1.716370098383646903e-01, 5.061675333222437345e-02, 6.527127762937359190e-01, 7.801973760401965663e-01, 9.643218021735481260e-01, 5.666971537791518632e-01, 3.579750434061381575e-02, 4.957875765263959345e-01, 1.610086501780322310e-01, 6.248215220383857710e-02, 1.340549092764596051e-01, 8.144684672734825437e-01, 1.244445181142979084e-01, 9.873343351734599205e-01, 8.716413298241428020e-02, 9.621041695244273440e-01, 8.504613153482575294e-01, 4.737262389496249559e-01, 5.196769333514635880e-01, 8.505901152293376954e-01, 9.477555098002014844e-02, 7.098100261690916124e-01, 8.388674766373791503e-01, 3.768877950463882520e-01, 7.860043748597644875e-01, 8.970935682039747894e-01, 4.359769558141456114e-02, 9.937431512654686383e-01, 9.816246095787821702e-01, 8.259817420408495370e-02, 6.840094302193646669e-01, 9.653397797568241678e-02, 8.576102262225077100e-01, 7.335353053695240488e-01, 1.044226730716875731e-02, 3.938993633486935209e-01, 1.782388087695668810e-01, 4.018794486744009520e-01, 4.495882670949146176e-01, 8.829014369247369931e-01, 7.491524508398038629e-01, 2.918446534906070089e-01, 9.338195170597759498e-01, 1.153864329247036302e-01, 8.703104771534372341e-01, 8.262202996323874116e-01, 7.003653295910807763e-01, 7.427773456855472078e-01, 6.572541030855775721e-03, 7.873873936536233131e-01, 7.455830023120802244e-03, 7.184889015280240265e-01, 2.121801786157316849e-01, 2.661989075118257886e-01, 1.544367262644602556e-01, 4.556726000356001727e-01, 3.646003494860500238e-01, 1.957139674700034138e-01, 3.983690342680185625e-01, 2.828945036168208915e-01, 1.008151680782058829e-01, 6.759805492195498922e-02, 3.964832569238522231e-01, 6.890159490882746818e-01, 7.538549246046843955e-01, 6.913386845250103496e-01, 5.866839575137871021e-01, 4.676865360400440652e-01, 4.464463083323618187e-01, 1.761465127614953996e-01, 6.284188853474339531e-01, 7.591966447914285654e-01, 5.421848900090162626e-01, 6.686089277853727308e-01, 8.879430699591721599e-01, 6.703794692472717642e-01, 9.409856187016113482e-02, 4.994228998496612060e-01, 1.135361425191089707e-01, 7.022295932200083302e-01, 2.706635427546579264e-01, 4.530842882978121100e-01, 5.206005290160502508e-01, 1.358228941526711253e-01, 4.841414617778034279e-01, 9.773460601925100244e-01, 7.286143341676788454e-01, 8.232692325378179188e-01, 8.450055005011741782e-01, 4.805463914633242295e-01, 8.162739642375611560e-01, 1.276544777181912449e-01, 8.532456442566808130e-01, 1.637089388911406873e-01, 5.597192417215337557e-01, 3.127587093993385303e-01, 9.985791394400447274e-01, 4.162307435448597825e-01, 5.017647691902809015e-01, 2.989402468565924287e-01, 8.337104192422508664e-01, 1.970508450574211812e-01, 9.949293149312679052e-01, 3.043906863276515384e-01, 1.544556028378701595e-01, 2.994775716326490422e-01, 5.498616227229166098e-01, 7.130398039745783345e-01, 9.296250935932057757e-01, 2.411791842655830465e-04, 1.207035556738748168e-03, 8.114959147785314464e-01, 6.055283677681158050e-01, 4.103303118421912643e-01, 9.005820569743586690e-01, 4.876471344502667504e-01, 1.474292562857142941e-01, 6.088533512101378387e-01, 3.490688626446583620e-01, 1.907599565691626142e-01, 2.982275022368620077e-01, 8.234699711598643113e-01, 4.187653760321183860e-01, 5.411961799937773376e-01, 7.753700984744839042e-01, 7.001331245277491178e-01, 8.597513464864815491e-01, 1.076673201003592595e-01, 9.546992792890290902e-01, 4.765074240294808749e-01, 3.948548699906708204e-01, 6.156955562752954858e-01, 5.314742873659617645e-02, 6.008391090153865077e-01, 4.600095213871183697e-01, 6.093136046374977299e-01, 9.228210812513700789e-01, 7.124740293759054266e-01, 7.168298927182837899e-01, 1.004925039535839032e-01, 4.892338304228603940e-01, 2.096729564427216308e-01, 2.461464192153461905e-01, 2.009195357029139317e-02, 8.742438619733027272e-01, 8.058171515026262277e-01, 5.380974540935899997e-01, 6.363175797441603665e-01, 7.610302551935075321e-01, 8.009051427808067114e-01, 6.836381186110481734e-01, 3.433078339858252614e-01, 4.174434343271584552e-02, 2.549326234202045072e-01, 8.335313120803328202e-01, 6.961928678519456737e-01, 9.545892937159236036e-01, 8.301488054270621531e-01, 6.009461673310979579e-01, 9.707024360404585828e-01, 8.355113670082687793e-01, 4.679130171438066199e-01, 1.935567913562639131e-01, 4.501134843529157603e-01, 1.831186074277893483e-01, 6.736171007272229172e-01, 8.450002114308702295e-02, 2.067479930304969293e-01, 5.481915938256550769e-01, 2.168377516517648873e-01, 9.244351057588721110e-01, 2.094460033303101598e-01, 2.087395144535827696e-01, 7.741401392589979114e-02, 1.608835340570485828e-01, 9.447697677416647677e-01, 7.384523028768893438e-01, 5.108328347584459861e-01, 4.060381562220695129e-01, 3.938218504168053968e-01, 8.899201247492152245e-01, 3.288940339569038085e-01, 1.436035738525739958e-01, 9.562787229150749857e-01, 2.538524990063187881e-01, 5.147123566518603255e-01, 3.249945930461825561e-01, 5.849630794927840327e-02, 9.785957939525263827e-02, 3.783597194299215261e-02, 1.275598119705250999e-01, 6.696261499088381752e-01, 9.647283554565609931e-01, 3.622596177590484690e-01, 8.659530035245724955e-01, 2.122606312765233094e-01, 9.059543146420130644e-02, 9.525473682195904068e-01, 2.761121067469858859e-01, 2.847404362499904029e-01, 9.063128249023590932e-01, 2.959741622668929928e-01, 7.044911352822293971e-01, 3.230176794397847106e-01, 9.620127777823416215e-01, 4.192883194635850796e-01, 6.170578242180481121e-01, 7.900364302458604548e-01, 8.318619739663227763e-01, 8.768609100573423465e-01, 9.041404700906278957e-02, 5.548073968812627932e-01, 8.567219968367743022e-01, 5.662277350780504648e-01, 6.151879841176610686e-01, 3.213652695776614276e-01, 6.747599832047722623e-01, 7.053156500963031483e-02, 7.500651982304586129e-02, 7.921307041101931512e-01, 6.494820146234320246e-02, 9.512494151654560248e-02, 3.786882135303983876e-01, 8.239079159797171314e-01, 7.679910105311277269e-01, 5.175894728587067117e-01, 8.504297979193075063e-01, 6.708520426715524065e-01, 2.421249727782388561e-01, 2.768188620226229996e-02, 4.657534111121902631e-01, 4.918851787329798220e-01, 5.295240996209373691e-02, 8.208972876013531650e-01, 2.827472961321852996e-02, 3.321433867697614062e-01, 3.124389072598414696e-01, 8.969874336263007619e-02, 8.550353398395266202e-01, 6.190146523114311572e-01, 7.370686399716596116e-01, 9.460510665610984971e-01, 8.358887767451187445e-01, 3.476160559514269721e-01, 3.811827019148205098e-01, 5.749711264343762007e-01, 6.742855507599208043e-01, 1.457675818174741789e-02, 6.272994758508997348e-01, 4.564604196096944816e-02, 9.809232117990167588e-01, 5.463145159664418715e-01, 9.536807353956858746e-01, 3.740781234265898592e-01, 5.262382104395951776e-01, 4.831033660221796810e-01, 3.435863279093678280e-01, 8.565028896166289041e-01, 8.384974649501052424e-01, 5.564472412011914892e-01, 2.810631850991378577e-01, 6.970625167879304085e-01, 7.077798515624266207e-01, 9.537852368240548051e-01, 6.745082502244054146e-01, 1.990576926279815362e-01, 7.314246439624566554e-01, 9.538364647363961613e-02, 6.435275120385947067e-01, 8.419032140447209045e-01, 2.111147422103069604e-01, 2.949720864568116108e-01, 6.949443121492928643e-01, 8.592019872990414031e-01, 8.677823240757103207e-01, 7.334575538381781223e-01, 7.924414469331536592e-01, 3.426149761332745181e-01, 1.655738398240782228e-01, 6.213027165767723986e-02, 7.796196477362056232e-01, 7.915572592708318700e-01, 8.792329317455107596e-01, 3.218154394039061672e-01, 6.722367579718604436e-01, 6.224762264261748390e-01, 7.044211469744561249e-01, 9.096523033097757560e-01, 4.182372806449144997e-01, 8.851426811279190787e-02, 6.287557673703985106e-01, 8.159181933846682000e-02, 7.009462352036608390e-01, 5.511573375467659908e-01, 3.790557424818630783e-01, 6.832817211326414064e-01, 1.344689356951030146e-01, 9.745366816538544308e-01, 7.848262403480684712e-01, 5.289595509249255256e-01, 1.291272938917547575e-01, 2.624317217617447850e-01, 4.252654761228974456e-01, 5.590423078405711010e-02, 4.028551972101689915e-01, 5.222129071664906030e-01, 6.390464839632194194e-02, 3.583059781747882089e-01, 8.116616923923163363e-01, 3.636776256029541354e-01, 9.698894976320487915e-01, 8.876733703472963199e-01, 5.780301231448253807e-01, 9.035331156170638423e-01, 7.277901569512507107e-01, 8.972262933150849662e-01, 3.058656996884353552e-01, 1.681900955200009429e-01, 7.842145909437124862e-01, 7.638764187535339589e-01, 5.743538722391403756e-02, 2.775565517036974739e-01, 3.434454663591757773e-01, 7.595892859185680024e-01, 2.390549601208805941e-01, 3.935075147389833772e-01, 5.177363932455938400e-01, 2.527580322420939218e-01, 1.471370369738873585e-01, 5.110489277799988850e-01, 8.943298572005904390e-01, 9.400916356463177026e-01, 8.280500442045136689e-01, 1.654966790910715191e-01, 7.534610665341420210e-01, 7.457373892020879858e-02, 6.652831206873005554e-01, 6.916742299838389840e-01, 6.410951114344765056e-01, 5.641193457611298756e-01, 6.318085891012004129e-01, 9.136702381189529820e-01, 1.456375569932826519e-01, 1.915887496110056426e-04, 6.102768148667785386e-01, 6.036765298924755552e-01, 3.588314585255346634e-01, 2.019225597800653471e-01, 9.468349097587142049e-02, 4.488631503824354607e-01, 4.909624671069393598e-01, 5.285368032099565516e-01, 2.600850160438298309e-01, 9.193735436273774431e-01, 6.981677557185567151e-01, 4.627561559736161900e-01, 5.434390499495352911e-01, 3.166941075365780622e-01, 9.611801806039725893e-01, 5.313297275160540067e-01, 8.416019730390157383e-01, 8.206927265695327378e-01, 7.675031998731975946e-01, 1.892056287101223366e-01, 7.670695453511496009e-02, 9.477927377245867757e-02, 5.991822095157125494e-01, 6.596187104566497705e-01, 6.870553310546848591e-01, 7.331848364021822384e-01, 6.055274330301714247e-01, 3.481222342328872676e-02, 5.058982753933464194e-01, 5.185314186348521925e-01, 5.778691895450381866e-01, 7.041038419154397321e-01, 5.348500540139313753e-01, 6.365323559717278590e-01, 2.686673036703293715e-01, 9.267721550411129883e-01, 6.512146342642114449e-01, 4.831831443666221304e-01, 6.438641090476533435e-01, 4.712001171994557591e-01, 9.866553105827303716e-01, 7.105711418018357817e-01, 2.699620613227030064e-01, 3.998773210146399082e-01, 8.800856955317400976e-01, 7.308256020648702389e-01, 9.932997330672814484e-02, 6.316859532920672260e-01, 5.323272341573146438e-01, 3.695142076276735632e-01, 5.736718759379013655e-01, 2.808176194635805256e-01, 4.103455708585595496e-01, 9.973989856922713115e-02, 6.637600825381577696e-01, 5.908037933559259214e-01, 2.867402946029662045e-02, 1.753041582791217134e-01, 9.003234255341021619e-01, 9.327576762494731444e-01, 8.570454016490519633e-01, 3.613438983814583061e-01, 3.740981633185216926e-01, 7.755297623298933463e-01, 4.929748926048511115e-01, 4.833836776121869239e-01, 4.744784553626751333e-01, 2.586501331241305435e-01, 1.235038378277303339e-01, 5.141613779038763932e-01, 4.833852953065054803e-01, 1.184268750340955884e-01, 2.610817253898792822e-01, 9.473782917092516964e-01, 7.276342563734715663e-01, 2.493717314582846178e-01, 7.191512856218139627e-01, 1.322122193331614348e-01, 5.319402036879786744e-01, 3.145731713829786891e-01, 2.627465555331782721e-01, 1.539817222372818484e-01, 8.982156384453099385e-01, 5.305360720011956799e-01, 1.562100947939649154e-01, 4.031705119256479009e-01, 9.116992518509219323e-01, 4.139574120426791626e-01, 7.967921182793173962e-01, 7.531347697034203037e-01, 7.503207395587542239e-01, 5.165300930140239583e-02, 5.123486159509570426e-01, 7.309436312381714096e-01, 6.023748160410915542e-01, 2.299910666825976113e-01, 1.071447623515124209e-01, 9.815855060243735553e-01, 4.153107872047787641e-01, 4.823957782327397137e-01, 9.090552173049991636e-01, 5.437438861746901608e-01, 4.008558248313297545e-01, 3.525248560055563862e-01, 4.634135844834877394e-01, 1.064342656867461323e-01, 9.949838025191379831e-01, 6.093730105477971337e-01, 8.451828935601702897e-01, 3.925045236771670942e-01, 4.487875919662596136e-01, 3.486380867746122769e-01, 1.762077302423619152e-01, 8.274604755057159977e-01, 1.845899240787511608e-01, 7.471342309474193755e-01, 6.269708754477234525e-01, 6.639769072060616173e-01, 9.542607267885218070e-01, 6.012557410584110640e-01, 5.495074201248436596e-01, 5.092516939200208981e-01, 6.035611629698279801e-01, 2.066921625540164009e-01, 7.755545617181544005e-01, 9.834285061434572608e-03, 7.424132925039700348e-01, 2.157614570810099386e-01, 1.270172905479232117e-01, 7.771339174125687643e-01, 1.821179393908411992e-01, 1.771211351789798993e-01, 1.557224592955825937e-01, 8.358787494780349769e-01, 2.659718048889854469e-02, 2.406199929440818730e-01, 3.804456404618860033e-01, 2.435888179226972650e-01, 1.360249968419547095e-01, 5.950722393596281634e-01, 6.890601453695248679e-01, 6.727663100356392478e-01, 9.452376826878393645e-01, 1.424368315955087394e-01, 4.277877805395452482e-01, 9.077679659809573254e-01, 6.090608715009957486e-01, 7.148931369880818787e-01, 2.748010174595882926e-01, 5.926874715717146413e-01, 1.771197652419666257e-02, 8.942649776427832320e-01, 7.247768154056604128e-01, 8.804140249478198399e-01, 5.772779658426685501e-01, 2.423316109059368006e-01, 6.824743208566783625e-01, 7.082129789205351411e-01, 1.572986507417422908e-01, 9.453049226827439089e-01, 5.926426298353958400e-01, 4.036765217649421200e-01, 8.562148798445893272e-01, 6.854961675698582058e-01, 6.792213208917481371e-01, 5.437491098145845747e-01, 1.939871270436731854e-01, 9.691072947185798148e-01, 8.582722433840201948e-01, 9.289180201263422809e-01, 3.828280656050464525e-01, 3.215141859801910751e-02, 5.303326106524706152e-01, 5.749537024564757015e-01, 8.890316190051924528e-01, 2.664281493246365429e-01, 8.893733679219988364e-01, 5.263092540275986497e-01, 2.487016646908367656e-01, 8.275296236230734737e-01, 2.165296061865849275e-01, 7.310493867649362487e-01, 9.288287949082157935e-01, 2.433416972906433662e-01, 6.414937765612556131e-01, 9.973773800391736444e-01, 2.550542416999186934e-01, 8.077635598590419130e-01, 6.438803895808439259e-01, 9.555263529650824816e-01, 9.058680641208076423e-02, 5.556294353946833464e-01, 2.056934446381996073e-01, 7.220108161255334167e-01, 7.464007051120798986e-01, 4.047303507804954625e-01, 1.175592936967008173e-01, 6.046463681238911647e-02, 2.931386590592389707e-01, 1.017908614727685707e-01, 1.224499805184872114e-01, 7.808111911599606714e-01, 4.701934461869811677e-01, 9.315599866690543740e-01, 9.879535979501103959e-01, 3.336867408288174408e-01, 1.054903547159091459e-01, 3.823394185613646634e-01, 1.717304005164176639e-01, 4.113767296983215083e-01, 5.505945509879572874e-01, 5.289599452739597307e-01, 8.277281024287844735e-01, 9.973050394448636224e-02, 1.143396168149189290e-01, 7.455974234970689229e-01, 1.071695627397631911e-01, 6.249736229680994404e-01, 5.871361464718792833e-01, 6.355777288968139649e-01, 6.481577272809533330e-01, 1.301691542161975690e-03, 9.581572465006797934e-01, 9.582446054219165288e-02, 4.988275232896032252e-01, 3.912031816916698435e-01, 6.818963328204001861e-01, 7.700517019671163643e-01, 8.585621108688268333e-01, 1.053087505398202506e-01, 8.570738140210620859e-02, 9.210725338938398066e-01, 7.472698164631612627e-01, 5.809382600907606609e-01, 5.304500208160864982e-01, 4.604074409880409835e-02, 3.798173194193458224e-01, 7.671745589413495603e-01, 6.581697168018787458e-01, 1.813809396474096447e-01, 1.465694778245351382e-01, 9.380664559773019828e-01, 3.043908059779283359e-01, 3.862051054318818566e-01, 9.290268041722546943e-01, 9.548439733712423827e-01, 8.273920332143401835e-01, 9.365631063793968814e-01, 1.108581626792962474e-02, 2.466143673379821433e-01, 4.516679916190972088e-01, 3.607641233849213647e-01, 9.185000505242711943e-01, 6.240992925262865976e-01, 1.188294232707435977e-01, 2.037716197155159392e-01, 9.319186381893704851e-01, 8.279727956801315875e-03, 8.096539453393900021e-02, 2.136821141378033861e-01, 1.670491369161622719e-01, 6.067364621508898326e-01, 5.841251415527537461e-01, 7.866690022361380041e-01, 8.359561850461270094e-01, 6.906108969805608844e-01, 2.133629507818093074e-01, 7.763695800543058967e-01, 9.066411294822622757e-01, 3.695443709195813664e-01, 1.774049592562982891e-01, 3.477473406769052144e-01, 1.364629140821813080e-01, 6.207882531309557583e-01, 2.473404136213217530e-01, 4.025397185845700498e-01, 1.909672576176383585e-01, 6.099503312652038156e-01, 6.609455496040388400e-01, 3.194432526153409002e-01, 5.376934303303755325e-01, 9.710627797051568644e-01, 7.972945206819788411e-02, 4.767263054185347064e-03, 6.647722785610300500e-01, 4.523060266470496638e-02, 7.260182442889863141e-01, 1.500382562265734077e-02, 3.184361885873632225e-02, 1.374108937811665820e-01, 6.076237551800903747e-01, 4.437875051547391370e-01, 1.232254546987626154e-01, 2.068975873952794142e-01, 5.331963848328759026e-01, 5.672573209436400088e-01, 4.665114135748308355e-01, 5.394025768855579273e-01, 9.043963101747291844e-02, 3.586269662880310349e-01, 7.863964631749067458e-01, 7.508931500160691552e-01, 2.825898065512360557e-01, 5.247027508277674057e-01, 4.910275389567126947e-01, 4.596702717494770551e-01, 3.989136211533997889e-01, 8.098222349496515537e-01, 8.476088596457607149e-01, 5.060696126183684695e-01, 9.154573969813881718e-01, 4.499708968946653509e-01, 2.240775504941936724e-01, 8.769067116737897516e-01, 8.973626414296219655e-01, 3.839359257289865490e-01, 8.163268709270273590e-04, 3.611739277678723270e-01, 9.719208459679815615e-01, 7.241753621602105284e-02, 9.727923723868011630e-01, 9.552792389640346604e-01, 1.905175846802134032e-01, 8.220535639767303504e-01, 2.081540305533579882e-01, 4.614619137553170325e-01, 8.643312610464757295e-01, 2.804557891631532796e-01, 9.900880137862418939e-01, 2.222391546986547672e-01, 1.666125168049928940e-01, 9.125698657380505452e-01, 1.548271569504876544e-01, 4.295614373178199275e-01, 4.385195463498738899e-01, 6.630978304510295462e-01, 7.460602815767582996e-01, 4.627352516236192814e-01, 4.010896425476049854e-01, 7.879815282117309527e-01, 9.231645185174092161e-01, 8.411659132837218111e-01, 5.036371878891452436e-01, 2.617735012168457276e-01, 6.566188475885996745e-01, 2.965181230383417965e-02, 5.345463108127056495e-01, 3.219372573657856007e-01, 3.174563115887153453e-01, 4.833087414938178235e-03, 6.343207397272984105e-01, 9.578175099127224090e-01, 2.706098601094010167e-02, 6.608320671708983740e-01, 4.490364628220973597e-01, 4.392663129917306897e-01, 8.179450237618084429e-01, 1.580870859865504685e-01, 8.761561866641939256e-01, 5.073842915556140420e-01, 9.020513092612814088e-01, 3.889817163410331791e-01, 5.993751589691868054e-01, 9.659226153156522665e-01, 8.275397620567769008e-02, 1.764323343956512163e-02, 8.736185483982044087e-01, 5.746504316090530473e-01, 2.945892935497800846e-01, 4.759242877366929303e-01, 2.827311393425362418e-01, 3.945499933228086009e-01, 9.786259014605648288e-01, 4.347863013953045530e-01, 3.472036704583732480e-01, 8.802497685903071245e-01, 7.090737022841304693e-01, 9.679788807666410699e-01, 7.010928046632883825e-01, 4.412003667832681275e-01, 9.299289028139946511e-01, 1.407556254594916068e-01, 9.251298180534999194e-01, 1.855245513315030292e-01, 8.443204038630198749e-01, 3.803775485205909135e-01, 8.293793969212208683e-01, 1.501558233446328994e-01, 1.601396773642194127e-01, 4.508357498217926973e-01, 3.766663229796629042e-01, 4.705430170906035880e-01, 8.614756206265320460e-01, 7.117425976141091848e-01, 1.541368281484516711e-01, 6.344093810266550060e-01, 7.001473644508068306e-01, 8.104386723456253883e-01, 8.160997942855235943e-01, 2.590722055307355665e-01, 5.217691548170889648e-01, 8.429620623813958158e-01, 6.194976988956121255e-01, 6.194496412667295226e-01, 1.833653082000336054e-01, 8.737996171147248692e-01, 1.211021743453671168e-01, 1.374306467606470905e-01, 2.804071961134587676e-01, 9.670173609841041795e-01, 2.199394163422646598e-01, 9.549686164845413439e-01, 1.690948810485104203e-01, 8.553663038614520708e-01, 9.454509465570395399e-01, 1.397064580667403133e-01, 2.401651054999088819e-01, 4.898606794219784732e-01, 7.553131865071021078e-01, 2.591602100512729323e-01, 6.125642230057982696e-01, 7.974330423624843497e-03, 1.487901807573781543e-01, 4.298859661641903918e-01, 7.805753634983275679e-01, 2.415298359608417655e-01, 8.872154202766280306e-01, 9.753996865057908139e-02, 1.883046593450581341e-01, 2.554198110909939312e-01, 8.043620137750100429e-01, 7.851505184548964733e-01, 2.353075571570748814e-01, 1.894211873080500208e-01, 4.074698779370204971e-01, 1.301576099210420279e-01, 5.728725716299659654e-01, 5.179280394744021354e-01, 9.340453607272857228e-01, 3.565941824345928574e-02, 2.747722507172123407e-02, 5.730615295001031395e-01, 2.907971419241280886e-01, 7.684526447301429641e-01, 6.530895550884452394e-01, 5.841245547878072264e-01, 6.552154618009679854e-02, 9.975795649397718734e-02, 6.416772589684012207e-01, 8.771274090484291186e-01, 7.635409103078343307e-01, 5.339839089908242631e-01, 5.226922727364637922e-01, 8.441191296539897193e-01, 5.312252912852031272e-01, 2.223765045790817851e-01, 6.982042909847877010e-02, 5.238306918196756756e-01, 1.427718042478349006e-02, 8.443471371216224597e-01, 2.804715362689048086e-01, 7.006210429100764303e-01, 7.143178334769155757e-01, 7.176859458992458640e-02, 8.237106790155545033e-01, 5.415710308936505513e-01, 1.804446743395511643e-01, 8.654321054351382658e-01, 5.837194301295085541e-01, 9.730489834364471902e-01, 7.614670318153156092e-01, 7.014113613502724887e-01, 1.082368463609598569e-01, 8.014217939736208995e-01, 6.420002440744396743e-01, 7.536381224720515304e-01, 7.644032037756764986e-03, 8.152137951482242295e-01, 8.415632337848863997e-01, 7.561538466856005947e-01, 9.049910920298402939e-01, 5.767141180489866459e-01, 6.451578843015289833e-01, 3.041539678500427279e-01, 3.606143826517489437e-01, 9.607371942130973341e-01, 6.740477786067078370e-01, 1.057767066623616081e-02, 7.891525404598902504e-01, 7.698219460486995791e-01, 7.215874324130300277e-01, 7.140110307123975764e-01, 5.938072791823977292e-01, 1.945315583622029831e-01, 3.640798983623304563e-01, 2.924241799737462566e-01, 4.036933471625968606e-01, 7.132376046474336873e-01, 9.679874961368092334e-01, 8.959798431204789582e-01, 3.685963519601125338e-01, 3.135801362125121838e-01, 3.689226790041367776e-01, 6.368239361003062982e-01, 2.638470771746632970e-02, 5.201168539955787207e-01, 3.430277687836648104e-01, 5.656333896830412211e-02, 2.632048209845825881e-01, 8.779800510945096059e-01, 1.874547867990911110e-01, 4.081782200064024702e-01, 9.151004088898621880e-02, 6.647157796226807469e-02, 9.249413849708609803e-02, 7.607147915605950717e-01, 8.205179483787868877e-01, 6.265927082852911223e-01, 5.530990486256583960e-01, 4.993350581793547516e-01, 1.635671253394392621e-01, 7.231393525472619155e-01, 2.355557293322930925e-03, 8.422872910396783652e-01, 1.140488923779323649e-01, 2.430843663753992911e-01, 4.322210513641521201e-01, 5.770016618737033864e-01, 9.972870998833026357e-02, 5.190782196664124326e-01, 7.335009138569162923e-01, 9.594993734182578615e-01, 3.533303506286858409e-01, 1.144013699917655474e-01, 8.931341329571436116e-01, 2.601770236194834718e-01, 2.421101941003686309e-01, 3.090698828543411159e-01, 7.922648796914570912e-01, 7.427898482712208539e-01, 5.894189587296334576e-01, 6.015931229879395437e-01, 7.610895689098992056e-01, 6.146899397747445093e-01, 3.355306179096015917e-01, 4.074611339572486446e-01, 3.413543537315559817e-01, 1.636955395337282015e-01, 3.052991575292132165e-01, 3.181905538483208451e-01, 9.452349433877197393e-01, 5.932661939414174412e-02, 8.286128640147982782e-01, 5.822978800600881084e-03, 6.699106154758217579e-01, 9.217915553787089378e-01, 5.173654310288888780e-01, 7.909166638406255334e-01, 9.067343200977996398e-01, 5.006699346678579188e-01, 9.859369872542718127e-01, 8.870781291843241601e-01, 9.759835629961940984e-02, 9.936515114366830659e-01, 7.446031502254680801e-01, 9.252652448384339756e-01, 9.437494063679335507e-03, 9.292269303874967079e-01, 6.439189821877346898e-01, 9.704469560711644904e-01, 1.692031917486776227e-02, 9.337024887973381926e-01, 8.952390049729903598e-01, 3.899532588269553623e-01, 4.031110915545731976e-01, 7.569798313399052070e-01, 4.954153654485744518e-01, 8.321977169314941358e-01, 4.469002041576803363e-01, 9.340920317067706868e-01, 6.819220389535208815e-01, 5.876368320723854843e-01, 5.893172958405523687e-04, 9.784124564932198398e-01, 3.906007138960913561e-01, 9.693619283792631602e-01, 1.522107864510157949e-01, 8.686599751498070843e-01, 3.572872267675762659e-02, 2.212619025952449192e-01, 1.955364961015724212e-01, 8.484532524569738943e-01, 3.339962904176486669e-01, 4.266872491573354131e-01, 9.720262254321518913e-01, 4.762769007897549312e-01, 6.012268411695276260e-02, 2.480735450671645026e-01, 6.417667626080019172e-01, 2.400082990451839482e-01, 4.993643978428888852e-01, 5.441077735717290143e-01, 8.267754697018859789e-01, 6.119431671714735677e-01, 1.587984990560838694e-01, 5.686300929716531227e-01, 4.162945452964080806e-01, 6.502065143598322328e-01, 3.077613333491244774e-01, 1.187879944078273908e-02, 6.824469445743126528e-01, 4.202288379713621236e-01, 4.998218521684504312e-01, 4.304663595930636327e-02, 6.047288722443241449e-01, 2.334486069117998053e-01, 9.829986183180087211e-01, 3.754110734752726386e-01, 6.289366535740402719e-01, 9.264739813870696006e-01, 1.486184299358363492e-01, 6.081226453780987917e-01, 5.173334964228542415e-02, 2.628083192402730361e-02, 8.193603407616545375e-02, 5.104187921168500397e-01, 2.266658644644334586e-01, 1.709972098814541708e-01, 1.379378489479934355e-01, 4.294234342457299292e-01, 8.332066871397739161e-02, 1.109675051554362586e-02, 8.884478872554683049e-01, 4.023832361952311976e-01, 6.497041954684372733e-01, 3.208328325184354735e-01, 8.360582118571503463e-01, 4.594604067709162631e-01, 4.969389881781957063e-01, 7.186576881279373163e-02, 1.463932607544334297e-01, 8.058106841981669266e-01, 6.282826602979717512e-01, 8.275675748579846003e-01, 4.533253182187377828e-01, 3.676870052918062570e-01, 7.803368931978768019e-01, 2.099468817280740751e-01, 5.956323162211626387e-01, 8.813189015395840320e-01, 9.374728969419348079e-01, 5.722977499868170392e-01, 8.088541687727852647e-01, 7.407290466504862225e-01, 9.600403021152885685e-01, 7.778919965112689183e-02, 8.135751810429630027e-01, 6.959023037840715853e-01, 7.164687774598389458e-01, 9.414667715165183637e-01, 2.708787907585298860e-01, 1.385681287225025704e-01, 4.342624969507586363e-01, 2.870426242818079343e-01, 4.574478155266966661e-01, 1.571342864345534884e-01, 3.421879009811165107e-01, 1.168569071204840631e-01, 8.838029670354720091e-01, 4.622777181129527624e-01, 4.950145675242503818e-01, 4.352208357089660251e-01, 8.351387296262607896e-01, 9.395553556325160482e-02, 1.658251476262624646e-01, 6.058703762765055290e-01, 7.536269681870296777e-01, 4.012004905237939179e-01, 9.086491777314683604e-01, 7.472005619035493318e-02, 3.641373322925764433e-01, 2.770972846147238267e-01, 5.024500181543801736e-01, 2.184177685567144367e-01, 1.648415752400196055e-01, 4.503508360156887463e-02, 1.620339486718408439e-01, 7.129547542924402626e-01, 2.964989876291465598e-01, 4.165932393246981058e-01, 2.180409785900189745e-01, 5.530539529067520776e-01, 5.924522140366287326e-01, 9.168174257987850018e-01, 9.780980046551220886e-01, 9.985028150040791139e-01, 4.728711722511517168e-01, 4.013600426511149122e-01, 1.067593769578852880e-01, 9.463649045394127712e-02, 9.636929963155442813e-01, 9.722093269815250682e-01, 2.950591705955889488e-01, 4.069303572419727955e-01, 2.193264892010187983e-01, 1.061100549927510572e-01, 4.059709730594510124e-01, 3.391409788814586102e-01, 6.547206141859186479e-01, 4.571238510477784178e-01, 6.242319159209924750e-01, 4.752892484534717576e-01, 4.866364482260797653e-01, 4.023621635847696720e-01, 7.116288041338922898e-01, 9.377107458619051705e-01, 3.888246528136559688e-01, 9.447515219127123887e-01, 2.843625593581607103e-02, 9.305010241679243510e-01, 7.199107256048999925e-01, 1.247335445489452521e-01, 1.876934377770305418e-01, 8.982578927579069061e-01, 9.349428189755265572e-01, 2.406117237576964052e-01, 8.809812731911110806e-01, 9.758166562595688154e-02, 7.565454733923251407e-01, 2.323174592899094615e-01, 7.983753817858405544e-01, 7.632572532479662275e-01, 7.982372031477517060e-01, 4.940959718335554696e-01, 7.341168099564532312e-01, 9.862167076559281709e-01, 1.147365458203153388e-01, 2.276389744148949734e-01, 5.696235689110377143e-01, 7.309790493453440785e-01, 1.669336799049015926e-02, 2.645568016880616713e-01, 2.898872935976843923e-01, 1.219246684305974604e-01, 9.438952666822338911e-01, 7.643045314767350495e-01, 7.595207052474968190e-01, 1.984752696292888252e-01, 3.807896263760025546e-01, 4.396230471631307757e-01, 5.966873392042687518e-01, 7.452952177500090647e-01, 5.340647343977714678e-01, 5.652633847904079412e-01, 1.479425466828560021e-01, 1.543668291260583691e-01, 7.470091533932274319e-02, 8.240870141619043299e-01, 6.885473838442864869e-01, 2.274367515745658874e-01, 4.164559464697371594e-01, 5.341292641940398322e-02, 9.683767276411104907e-01, 8.119932739380848474e-01, 8.518959356515389825e-01, 5.016343724286694006e-02, 7.951141266482933956e-01, 7.771662720151253367e-01, 9.709480990009119461e-01, 1.260636231013242403e-01, 5.280130853801089374e-01, 2.009095095810747508e-02, 2.360049913816441025e-01, 1.707174718924715784e-01, 9.147004374847822472e-01, 7.236435592325984878e-01, 1.005968339900482761e-01, 6.097504086484953900e-01, 7.195569460469694034e-01, 2.280485895177535027e-01, 6.520824783805406755e-01, 9.444948219971988079e-01, 9.625249528017938427e-01, 8.165852784684594079e-01, 9.304227917263028225e-01, 8.771419761092132950e-01, 9.221935332749007230e-01, 8.374275862732538656e-02, 5.384932523762641088e-01, 1.390903983410352041e-02, 2.379664497756842911e-01, 1.667751157395227779e-01, 8.788215550849519664e-01, 5.409285604334201913e-01, 4.678715848221404183e-01, 9.560493652144640420e-01, 7.648839072592659161e-01, 7.320559169616148720e-01, 4.088523938730052182e-02, 8.762851881883196858e-01, 8.381050371290393874e-01, 9.297819135177328720e-01, 7.764414664262762056e-01, 9.212073494392325479e-01, 8.596506747357071099e-01, 4.879163998747534370e-01, 1.158830287594047881e-01, 2.856539237011245791e-01, 3.334414248447773454e-01, 9.088164446834831045e-01, 5.680616871905251886e-01, 7.017467716336225347e-01, 6.759868105541193550e-01, 1.185405929833494021e-02, 3.936393729503370187e-01, 5.304395507167638524e-01, 2.443345839471597891e-01, 5.520747244112131913e-01, 1.266023966465686934e-01, 2.279840044784848530e-01, 4.261197618476333382e-01, 7.946584806693146597e-01, 7.107692250151766977e-01, 7.539532140406160488e-02, 5.901815280962741106e-02, 2.909985926857479588e-01, 5.117442019427319577e-01, 6.522872466994817930e-01, 1.600067597152226018e-01, 6.118605524444309385e-01, 3.909563199357947716e-01, 6.335529724434133536e-01, 3.355627197951856489e-01, 3.870527608832056154e-01, 4.252233510924864901e-01, 6.932511483655140472e-01, 2.822744866808590825e-01, 1.635206663861856480e-01, 8.567606615191923902e-01, 8.024084634578784181e-01, 8.885288239963178292e-01, 9.516672096178533380e-01, 4.347909112699845924e-01, 1.597902337884796187e-01, 2.268037465269268083e-01, 9.815066220706686329e-01, 8.629186801446480093e-01, 7.343539248103399253e-02, 8.978823469332914975e-01, 5.644337762909298339e-01, 3.201623137743759839e-01, 2.788698594257555188e-02, 3.892991967966865086e-01, 4.988931130070334286e-01, 3.107529960330579488e-02, 6.708486926936715333e-01, 4.616742703157774019e-01, 6.258724133532489464e-01, 1.288860102350309900e-01, 3.292926266680252789e-01, 2.625492198014103273e-01, 7.808671506751967417e-01, 9.233329504338927407e-02, 7.178993461183408309e-01, 6.564563640436289482e-01, 8.982721551170044227e-01, 8.071906275918832030e-01, 4.701784872445148311e-01, 2.583897752599672026e-01, 2.894151991856272477e-02, 9.210720973957412516e-01, 5.152895847136239604e-01, 2.279000258839655457e-01, 4.877491561729540015e-01, 3.528621227794481729e-01, 1.058520483056007572e-01, 3.248674451788292616e-01, 8.549036711442519199e-01, 5.562152422127289997e-01, 6.125676449410790703e-01, 1.310279584247392437e-01, 8.521422389555123322e-01, 7.800691251667954962e-01, 4.106815999480889490e-01, 8.939752362960630139e-01, 8.107185521187474375e-01, 9.471851447997306495e-02, 6.210927266501830024e-01, 4.094758855378442530e-01, 5.089290596029757419e-01, 1.875423764454792752e-01, 6.341658450135828629e-01, 2.199206710504876539e-01, 3.820110454655410992e-01, 9.654581467048597432e-01, 8.530198249882868788e-01, 6.105410084743608801e-01, 4.114567724971570084e-01, 7.147508083862028627e-01, 6.762737701588145134e-01, 8.296984465120201824e-01, 3.852721239685907295e-01, 4.551161363860306008e-01, 3.888971358405390322e-01, 4.444044105186681359e-01, 9.352664048414349729e-01, 6.540802388368701648e-01, 9.928669255816079398e-01, 8.010289297864819913e-01, 8.512435753659103321e-01, 7.749556778476865970e-01, 5.177622205674381473e-01, 9.040459260070530245e-01, 8.563833610372284522e-02, 5.541156363614498925e-01, 1.094059122884304264e-01, 9.606608259895420554e-01, 3.843199178756279838e-02, 5.583994387131792081e-01, 9.098434407543570801e-01, 9.636223342424681260e-01, 2.301113553135956391e-01, 9.618392534801644134e-01, 9.641750282267970151e-01, 9.856244185856299911e-01, 2.695755846815809376e-01, 2.703872197853698367e-01, 4.025467208957506093e-01, 2.821316251924038676e-01, 4.531083747414112461e-01, 6.198221604389492212e-01, 4.657317739926168654e-02, 6.652959408434320210e-01, 3.975236422060137165e-01, 3.992666069090077263e-01, 4.730631954062883837e-01, 7.077726104375159366e-01, 5.760185336061094397e-01, 9.024075406856730819e-01, 8.364766871942839188e-01, 6.747164854830991487e-01, 5.698128216775680821e-01, 2.724621581337883791e-01, 1.843557724018226041e-01, 8.072705307933499830e-01, 2.569328060469217578e-01, 3.853396186028810178e-01, 2.131371575880681990e-01, 8.140761079679670331e-02, 6.645526853926936317e-01, 4.443730682946120947e-01, 5.188263492761783224e-01, 1.026962915431606643e-01, 7.915209888477910960e-01, 5.241183491999248378e-01, 9.131000037425294202e-01, 5.156274078860563215e-01, 2.363718669425230734e-01, 7.119497494776793056e-01, 7.503087941492421198e-01, 5.289309245726151465e-01, 8.044579624495268311e-01, 6.181121694744816653e-01, 5.697340477508148204e-01, 6.105372713285261987e-01, 2.210998807160880278e-02, 2.191087675680702951e-01, 7.748627818198883244e-01, 7.771294133963585482e-01, 8.849362922839827394e-01, 8.653854584366729163e-01, 4.990477497750361313e-01, 2.372375681626237576e-01, 7.109603300916267354e-01, 4.112368787344443111e-01, 8.536389394658981944e-01, 1.330884456442240626e-01, 6.136026355313417557e-01, 1.785352504872287360e-01, 5.124865074796579600e-01, 1.102478250375912294e-01, 9.866997160636744590e-01, 3.532097867088473953e-01, 7.353544353759847718e-01, 3.151324013680307790e-01, 5.852117010482501547e-01, 7.314941325129031835e-02, 6.066380155068049618e-01, 6.928165435047717313e-01, 2.659669900928386399e-01, 2.232287996178242695e-01, 4.980587566773037600e-01, 8.340770733196680720e-01, 1.688167421545519742e-01, 7.235010783395027234e-01, 8.583207291146908169e-01, 8.660397838930676828e-01, 9.499149554559418451e-01, 2.248704262501531603e-01, 8.216017661230848868e-01, 4.868776160682072862e-01, 7.263101213753992980e-01, 6.743780496919835610e-01, 8.541375512684742377e-01, 9.791197484198193024e-01, 1.278286486673163302e-01, 4.198098701022875967e-02, 2.283527877019501107e-01, 3.695615127417138934e-01, 8.638763072525801334e-01, 5.747399961095888132e-01, 4.551946146700146523e-01, 8.631036553091255004e-02, 3.959893748337132147e-01, 5.257832827617635596e-01, 6.731491796550986839e-01, 4.478952230580617866e-01, 2.912086795126468952e-01, 3.674946645450700711e-01, 4.381043934827410502e-01, 1.229475838634987300e-01, 9.058860239736901132e-01, 3.136108193549582701e-01, 7.245106038037052443e-01, 9.776635160595683605e-01, 2.116647476006431883e-01, 5.008660444667933920e-01, 4.487279290438104251e-01, 8.240066114142117204e-01, 8.256760872165487541e-02, 5.120055051901097887e-01, 4.761798362015772779e-01, 9.022749203063185064e-01, 9.969903955067802581e-01, 4.454918795341165638e-01, 6.004193768080421378e-01, 2.014614083469284112e-01, 6.619863668267028656e-01, 7.487898676900077710e-01, 4.730234655293529267e-01, 5.625869597680996925e-01, 3.630412339104954200e-01, 6.191909245516981075e-01, 9.020392942459137808e-01, 3.457435429276405903e-01, 7.800606387365938144e-01, 9.506090293688527204e-01, 1.906192810461737608e-01, 8.827621969042447336e-01, 1.072899494946154553e-01, 4.929137685122911838e-01, 9.197954075407498431e-01, 9.321434048032466446e-01, 8.302382649839172846e-01, 8.757583037810288129e-01, 3.036896046472979949e-01, 5.130250140585211893e-01, 2.107781250887322266e-01, 1.483767997588123777e-01, 4.090888136199713476e-02, 7.549589881716031181e-01, 8.561323860087665105e-01, 1.248429933910234491e-01, 4.661770431642164869e-01, 9.382767475649600453e-01, 6.798352793797125537e-01, 6.612351179203916907e-01, 1.529567987039158472e-01, 9.623234361435493156e-01, 2.984623477994037266e-01, 2.643902213525702316e-01, 6.660855413006777637e-02, 5.325139706603321255e-01, 1.909852372312342284e-01, 3.573096943129996372e-01, 2.670668953991834349e-01, 7.434954395148811734e-01, 4.300716954928234248e-01, 9.816006021616290045e-02, 5.923535588170781852e-01, 7.371354347735162293e-02, 7.165710682001081855e-01, 8.865324605033924055e-01, 9.440246143070312179e-01, 6.114155478052342163e-01, 5.458947936943421286e-01, 7.849950206419251675e-01, 9.064388680494844808e-01, 9.999791942602298533e-01, 8.719671702871854002e-01, 5.846823955899083103e-01, 5.078332992564784654e-01, 4.142398510808040779e-01, 5.667477533102189824e-01, 4.818007034587452053e-01, 6.004691138138700257e-01, 7.490405093879439757e-01, 6.834901106918378488e-02, 8.663909343226213755e-01, 7.943877114019424202e-01, 8.360711008351794371e-01, 8.972510129724888817e-01, 8.786899897356234002e-01, 8.873215756426370282e-01, 3.857336295369845347e-01, 7.414901312892392404e-01, 7.052455565668394599e-02, 8.029789818939381263e-02, 7.780355919877787185e-01, 8.198577692198657507e-01, 9.363523345982488477e-01, 3.098773041294093922e-01, 3.420859645353014900e-01, 4.898818192998113941e-01, 5.267881344072883332e-01, 7.192824537625344128e-01, 1.984677113621581557e-01, 2.926863847041774047e-01, 9.988431311158240122e-01, 9.830177378120802389e-01, 3.981379785261369708e-01, 6.855694212052197978e-01, 3.034161366277822180e-01, 2.381180724889996325e-01, 9.316303439346935722e-01, 4.227240697373380596e-01, 8.154788105217922745e-01, 5.461179325371899873e-01, 3.707135634271662150e-01, 7.469377547314484111e-01, 9.249577876151324762e-01, 8.005563748996279427e-01, 8.316694213697113369e-01, 3.218268775464327991e-02, 8.952177432163080928e-01, 2.280645605180317559e-01, 2.415108109256078883e-01, 8.567020210705007521e-01, 1.598916260513040810e-01, 8.248610741122634760e-02, 5.461786823365215593e-01, 8.752581770435533537e-01, 7.491270639992776426e-01, 6.279527251120708975e-01, 4.083064273611743400e-01, 1.809698513005764120e-01, 4.821695771453221591e-01, 5.921010383873392957e-01, 7.034869728437630476e-01, 6.773754227030349684e-01, 3.416185473157058450e-01, 6.681239159473931766e-01, 9.663312319641795822e-01, 5.497805008850331632e-01, 5.187206355852636008e-01, 4.881508563552533486e-01, 9.451008109834683202e-01, 5.600537572545627452e-01, 1.856692320388647621e-01, 3.065901637616748610e-01, 2.008477480113483593e-01, 2.224007072771210999e-02, 9.873223585368192667e-01, 3.045334224527242450e-01, 3.538859203343786008e-01, 6.378318470135665441e-01, 9.280434147354236218e-01, 2.359333555541197613e-01, 4.626676227450096102e-01, 2.394869845878369319e-01, 6.843398016871029554e-01, 4.815681981029847347e-01, 7.056527039884300523e-01, 4.493947642850374402e-01, 5.340514379020085967e-01, 8.735149868862265299e-01, 3.697424840551173375e-01, 5.686563044872607747e-02, 8.095029241354045890e-01, 1.444057560768096660e-01, 8.684215132801460513e-01, 6.896501097985097140e-01, 2.527111808925988634e-01, 7.905185446355803558e-01, 9.120859546706606702e-01, 2.642891156649619933e-01, 9.555257247050646940e-01, 1.770883065939722334e-01, 5.988638851642890115e-01, 6.679428909747081589e-01, 4.337058217052080500e-01, 6.492086353256038000e-01, 3.686235885272082236e-02, 3.666113852569690135e-01, 2.748821643701109263e-01, 5.053109471542858167e-01, 4.193037262343948801e-01, 7.713642655225185774e-01, 4.623527017011976326e-01, 3.657172888061289706e-01, 1.645791431659226201e-01, 8.243447766778426722e-01, 1.420243959739387329e-01, 4.324512048400671604e-01, 1.043038956710488074e-01, 8.465034215778375337e-01, 6.131374795483393036e-01, 7.056590488009464868e-02, 4.520361201018208153e-01, 6.416717131694297249e-01, 9.565199056421678225e-01, 9.140727054244817129e-01, 9.921675315231837100e-02, 8.672673367544350143e-01, 2.585740976659328672e-01, 2.261613239831425926e-01, 9.093294979507614562e-01, 1.725826956466926798e-01, 5.228408982898031798e-01, 9.853400738134174830e-01, 4.125694654173838738e-01, 5.530020907473706115e-01, 9.997079913503140736e-01, 4.169207402240512894e-01, 6.128350817572733034e-01, 3.512157830187649377e-01, 5.252746619245729498e-02, 1.032491037498046715e-01, 6.241647786934828579e-01, 2.031260024369409625e-02, 8.189458615844101841e-01, 4.556417408416722076e-02, 1.907931066402964171e-01, 4.312885299051494314e-05, 6.621889739766813054e-01, 7.788646251249312646e-01, 4.412548166574501440e-01, 3.269946865413695947e-01, 5.881416974117540386e-01, 9.311295306186875287e-01, 4.948718584997004871e-02, 6.845378110873713284e-01, 4.698839260317773207e-03, 8.439524967741708350e-01, 4.423413092341483832e-01, 2.559452575190024892e-01, 7.565384154603521649e-01, 2.713057602070180763e-01, 8.097797632328100903e-01, 8.459712087730235641e-01, 9.314614535695464603e-01, 7.304370181202833878e-01, 9.487648581859405850e-01, 8.569471807414804632e-01, 1.911254200961774175e-01, 7.226437581612284999e-01, 1.746726389828887893e-01, 4.285052989521738187e-01, 8.609575406106613205e-01, 8.611909895021032657e-01, 3.586337078137857293e-01, 8.502417803731384671e-01, 6.182576029941561080e-01, 8.552070505104980569e-01, 9.281495560070928130e-01, 8.651511649473953014e-01, 4.418688219553491003e-01, 9.241522028052949131e-03, 1.952083788808522957e-02, 2.444959198583230853e-01, 3.176891046819630970e-01, 3.506439990064575407e-01, 4.274804435857856300e-01, 2.515415813670190959e-01, 2.570834225897622449e-01, 7.794900603041625686e-01, 3.822398846967800523e-01, 5.596297235655673941e-01, 1.715814734202289471e-01, 8.452214542666446340e-01, 9.693200597050880551e-01, 9.015976680333126492e-02, 1.904814736559369281e-01, 4.351921280907192768e-01, 6.348220553861795568e-02, 5.138121468046349394e-01, 8.443091441996527502e-01, 7.704849217943756656e-01, 4.771487788747411085e-01, 3.666335809089002473e-01, 1.842925984952638319e-01, 7.049989005636858597e-01, 8.290281368428751296e-01, 8.543749309453344543e-01, 9.226567851447109447e-01, 4.612237116029132555e-01, 6.309446752686399991e-03, 5.095098413088731126e-01, 5.984802916583482624e-01, 1.846717116770657252e-01, 3.117144890762072462e-01, 5.228385664699534974e-02, 8.032698132189725060e-01, 6.880089367421626800e-01, 4.301440279946683876e-01, 3.768679731512746267e-01, 4.999026703432227214e-01, 5.698008084426164910e-02, 3.562116088919322632e-01, 3.887306478100360785e-01, 3.176778564374869718e-01, 5.725679245879572443e-01, 1.969690207310980101e-01, 1.182932006734371821e-02, 4.935295707130120113e-01, 5.488169759639657252e-01, 1.474323467270772237e-01, 7.851996999588739534e-01, 5.670695554500552182e-01, 9.802028231405806036e-01, 5.267970825880590596e-02, 9.417503572317939553e-02, 5.611310728160003869e-01, 4.268381777922843068e-02, 4.863749843290605113e-01, 2.331683122699511612e-01, 5.693197629349734390e-01, 3.678954773530795919e-02, 4.564485495706581686e-01, 6.438859250956583402e-01, 9.345605376759547056e-01, 6.380609543081783297e-01, 7.340981065461613664e-01, 1.160776844405643146e-02, 4.214387798288286163e-02, 2.400482873085056645e-01, 5.389017037772739910e-02, 9.532261882250869789e-02, 2.709375488658083767e-02, 7.489760433080054902e-01, 7.390284524848027559e-01, 9.913362062792273610e-01, 3.837943687320218289e-01, 6.627736718630881096e-01, 3.920688796918718744e-01, 9.606372309199127102e-01, 7.571632215703479885e-01, 2.062362820106216355e-01, 9.081246902770332419e-01, 5.749743869191219492e-01, 8.771799527630738114e-01, 5.386493029513542696e-01, 8.527928863203659837e-01, 5.974764277572756077e-01, 4.838790498825978892e-01, 1.104756322328452195e-01, 6.104893056973760279e-01, 6.118981118385236062e-02, 7.537530858121650745e-02, 8.182300530944492944e-01, 8.532896948398223103e-01, 4.232237653804126198e-01, 1.390437285459149297e-01, 6.842097722459002940e-01, 9.538636975778884697e-01, 5.630985700129675919e-02, 1.130189717730622767e-01, 5.360555845422895205e-01, 5.467634124451796751e-01, 6.080346016961186706e-01, 8.839048248566154786e-01, 2.247632147710986183e-01, 8.834812605021629128e-01, 6.149781031052121288e-02, 8.029886333361465622e-01, 6.271136451304666626e-02, 8.031360841470220890e-01, 2.949902817856170367e-01, 4.331836956655237825e-01, 6.041209550463522149e-01, 6.044097054652275425e-02, 6.686041225876162564e-01, 6.671391543780478273e-01, 3.140621851983642632e-01, 9.948429060230189469e-01, 6.052634582466063229e-01, 5.043439079877001796e-02, 3.036875929336914082e-01, 1.507099457295613121e-01, 6.609974822472887146e-01, 5.258130430281555689e-01, 6.639729373433359561e-01, 1.052155902778518365e-01, 7.753673375194635176e-01, 5.511760941705545758e-01, 9.164515676310576175e-01, 1.793616147161477270e-01, 3.741902315854161998e-01, 3.858995489656877331e-01, 2.444454839233635157e-01, 6.442412889115312069e-01, 2.584654748993696696e-02, 9.828549526308612005e-01, 8.631694927841805365e-01, 8.634056682245565550e-01, 6.526103284197269927e-01, 2.658610660433108341e-01, 6.980125189069285030e-01, 8.123516951681596376e-01, 6.725045819818673554e-01, 9.549034313797878371e-01, 2.927085105383975261e-01, 8.061156630456801642e-01, 6.938438096278843892e-01, 1.264606765367420338e-01, 6.057525329414000792e-01, 9.719917923190661835e-01, 6.271674625058991648e-01, 6.958402320585159728e-01, 7.737469623044740397e-01, 9.153854625175475990e-01, 3.200195645016585266e-01, 6.673513786362947897e-01, 7.100569557162956791e-01, 8.842025859489459627e-01, 4.099282319688691278e-01, 8.082108743047261568e-01, 6.225763677342621705e-02, 5.901617364734618176e-01, 3.240254912430372003e-01, 7.931970184160741510e-01, 6.157357995719708876e-01, 3.248436387624654281e-02, 7.583906533792543758e-01, 3.522084016672826223e-01, 5.930813142826910633e-01, 5.034655646558929831e-01, 3.840532513065065823e-01, 9.680939800846272147e-01, 2.940083389994476160e-01, 7.755243667362721194e-02, 9.288306782216277924e-01, 4.241707797839475713e-01, 5.009754943713494724e-01, 9.518605736591120303e-01, 8.073577744791371469e-01, 3.384420833803236661e-01, 3.506120326999095926e-01, 6.008954239245910545e-01, 1.815514395708179018e-01, 8.350222199102983467e-01, 6.426151866968294879e-01, 7.897326345062384290e-01, 7.695277858192458575e-01, 6.857487422942671884e-01, 8.582448391863828352e-01, 3.323530504257362628e-01, 9.651008402547653908e-01, 2.806850988501341515e-02, 4.526682213815254041e-01, 2.406585132562172602e-01, 3.416794358433450363e-01, 6.217675258791457438e-01, 2.040717054986234125e-01, 6.013341918180477030e-01, 3.419856805396021548e-01, 4.334932508396325268e-01, 3.580168824251453441e-01, 5.648153544147985761e-01, 2.818304847371034261e-01, 6.907856418910092167e-01, 1.286978696944301725e-01, 4.909671269824643636e-01, 4.930389318973893431e-01, 4.493047891294579821e-03, 9.176841850220371910e-01, 2.290457160698992356e-01, 4.964572272622860272e-01, 3.694011880584711083e-01, 1.800508120104101772e-01, 2.343542861935430099e-01, 7.235079820342079637e-01, 8.863815646810300208e-01, 1.887222162132152770e-01, 8.130588399395464183e-01, 5.791135408455503342e-01, 5.328194994706485499e-01, 8.687090436994524545e-01, 9.807848475134046673e-01, 8.656479814001385442e-01, 2.427464320756085314e-01, 9.352417716427696703e-01, 1.809959347483178771e-01, 8.202589823266644986e-01, 1.316075554959168226e-01, 1.279116606621761021e-01, 8.139967238350999112e-01, 9.595393982066694472e-01, 6.575450717795894295e-02, 9.328581593386991999e-01, 8.658865235233267899e-02, 1.972758046211623706e-01, 3.290643629751023869e-01, 7.583947585532878621e-01, 5.250076539316020918e-01, 8.424074289208877131e-01, 3.338290982768881143e-01, 9.907759324454358252e-01, 6.738266700800930042e-01, 4.639024335714544978e-01, 5.832831307514205754e-01, 9.168489875799549216e-01, 5.131758072310248497e-01, 7.237452170914657756e-01, 5.808255776183544050e-01, 8.787480725987989461e-01, 2.290796961503734352e-01, 7.814191005911315102e-01, 7.087926743349038938e-01, 9.603631558441181326e-01, 4.837240397359469646e-01, 6.105390810957183056e-01, 6.215658928174678799e-01, 1.158490727654913899e-01, 8.162415365150059721e-01, 2.742550960310445318e-01, 1.674617216852737622e-01, 9.859583490446183207e-01, 7.068829599649958384e-01, 4.981724642532694425e-01, 1.458333091123625580e-01, 4.735207360961872780e-01, 1.316673856607050441e-01, 8.751213875268645248e-01, 3.293354771066157177e-02, 4.932357891202729938e-01, 4.226174461366183910e-01, 3.150116393647097168e-01, 7.858028785458199827e-01, 1.050356251247352019e-01, 2.745717727122529150e-01, 4.840013737631552737e-01, 4.751402156390499565e-01, 9.166326738177280609e-01, 3.121390549885298404e-01, 4.868128772439028751e-02, 8.570925555195840762e-01, 8.330250284364278945e-01, 8.424213156787909718e-01, 1.579945863870081402e-01, 1.430570352316072880e-01, 7.750602473614305321e-01, 6.538310783331017229e-01, 4.714691050572099584e-01, 2.864696392045517626e-01, 2.654660882514723874e-01, 6.061535810150765480e-01, 6.373228080403817719e-01, 9.253323734576767157e-01, 7.187599489173066569e-01, 6.547524513900989662e-01, 3.288234527043271127e-01, 3.989890371253065338e-01, 2.578002120354194737e-03, 5.746854855715133326e-01, 1.010678639092137399e-01, 2.223158538413212426e-01, 8.731816427660733515e-01, 1.772028807823954055e-01, 6.133836302649020578e-01, 5.223303380035831944e-01, 4.509363161059821712e-01, 9.366526062144604481e-01, 5.404689924992645000e-01, 6.500294966839645916e-01, 7.600379307733208523e-02, 1.361266938225342560e-01, 8.516000056428215670e-01, 3.413890573346930468e-01, 1.924172675732020166e-01, 6.925897222115703356e-01, 3.650039186631965915e-01, 3.518692683506431940e-01, 3.562851985846055003e-01, 3.013307440774380952e-01, 8.999981324132839688e-01, 6.442571815239223065e-01, 2.214791663528145049e-01, 4.868279031401312462e-02, 7.758705674684341913e-01, 7.703682105770033317e-01, 2.969160921551517451e-01, 3.703464872474173664e-01, 8.227081281156330972e-01, 6.151450108919759296e-01, 4.646463192558515365e-01, 5.071990542841650074e-01, 8.909576996461475717e-01, 7.672917803815255677e-01, 7.404606325887962415e-01, 5.021298152310956775e-01, 1.845747808976842125e-02, 7.407303346728172366e-01, 3.528374068180632483e-01, 2.861521789572294416e-01, 7.175477457569117146e-01, 4.296170031984072879e-01, 5.717392481176262198e-01, 3.151241898598478031e-01, 5.230843635712592032e-01, 1.220324353156763131e-01, 8.686939505355905089e-01, 6.033063278730905754e-01, 4.608129208639913932e-01, 5.310135579931929417e-01, 3.587096149232218423e-01, 9.226777308374627395e-01, 2.239181030186409571e-01, 3.849039325798099820e-01, 1.399076275724507046e-01, 1.666395078795028240e-01, 1.810024170075764660e-01, 3.203441333449792983e-01, 4.221297396651200323e-02, 9.523079073027480579e-01, 5.114650286569556448e-01, 7.187116069866050783e-02, 5.880486363620257562e-01, 8.611268397607076130e-02, 3.449561533117220802e-01, 8.390947981322837146e-01, 7.411382654546339044e-01, 5.123818536512738664e-01, 7.224081007761723461e-01, 1.406073373911587154e-02, 6.605909108342981895e-02, 7.628882143805989502e-01, 2.887953542606337409e-01, 8.879214557061845259e-01, 3.569291936542605126e-01, 2.737247810214595289e-01, 4.242732464042615059e-01, 1.083365499764866458e-01, 5.409848426697836388e-01, 1.745996683929524340e-01, 8.494848737619913326e-01, 7.154161449852176613e-01, 3.120722261328111036e-01, 8.266057139665659026e-01, 6.186536607515480402e-01, 1.432470241579310022e-01, 3.985045523312784610e-01, 2.120065760388059051e-01, 1.050641323318017434e-01, 6.491815830055245318e-01, 8.654192503342998943e-01, 9.536788011795065412e-01, 3.626605906761799503e-01, 1.578533624891634846e-01, 7.289492981512254444e-01, 4.664194622556217529e-01, 2.628633803372186772e-01, 2.569740560367370086e-01, 2.555991926489401544e-01, 4.038507777151840172e-01, 4.316277601839545452e-01, 9.537006408737142005e-01, 3.740979325007178224e-01, 1.507439654908799831e-01, 6.497890962076567911e-01, 5.989351980927836161e-01, 9.673841726650175277e-01, 6.588383387148760706e-01, 2.258030310152588926e-01, 7.795409194881343096e-01, 2.408742627842820339e-01, 7.700974850845957453e-01, 9.556179072417883003e-01, 9.253057401103849111e-01, 4.636945472382476008e-01, 9.687871681095754361e-01, 3.559802311632154215e-02, 8.814471854787057081e-01, 9.113429364340310812e-01, 1.831691614388887557e-01, 9.337827940592964282e-01, 9.702355798730649683e-01, 2.782925049537487983e-01, 4.319801375688357009e-02, 8.075069010402639025e-01, 8.243010666292582833e-02, 3.657581316502448998e-01, 5.326958125220142559e-01, 5.128781401984545268e-02, 1.730969773783339882e-01, 3.299145322328749796e-01, 9.028669856866942123e-01, 6.519756709911246340e-01, 8.885401748430076241e-01, 7.906354732173203059e-01, 5.634641374575561912e-01, 8.849322908045691438e-01, 5.970997951520394809e-01, 2.273851814808208749e-01, 1.163733159006709594e-01, 8.331996129885217428e-01, 5.667396906491181108e-01, 7.330783032799582932e-02, 9.010812212016379441e-02, 9.253021924949811350e-02, 4.050331926970094365e-01, 1.045966946117682372e-01, 8.641992725381469898e-01, 5.797364872630127453e-01, 8.859228489071760970e-01, 4.873327668291876358e-01, 9.901545337157409143e-01, 6.859976494220737520e-02, 2.884622768560329842e-02, 2.578363267435250794e-01, 3.579847269518944830e-01, 9.014126109433547862e-01, 5.430101400990265947e-01, 7.484469364372292599e-01, 7.653583459921686760e-01, 6.177231102464970647e-01, 8.316287287046232601e-02, 3.261718267054948273e-01, 7.112367941912220992e-01, 1.020881759508375855e-02, 7.869611293499246818e-01, 2.635652534867449770e-02, 5.517966545210069018e-01, 4.063877319284981554e-02, 4.058437470204066533e-01, 5.261765230732765586e-01, 4.827455203866750089e-01, 8.566340995592481855e-01, 8.096287591833136732e-01, 6.286355543012474290e-02, 5.410349105119938162e-01, 9.865152695931370674e-01, 6.898136723130849912e-01, 3.038091626173906046e-01, 2.142199927534984422e-02, 5.020878622532694013e-01, 8.712692559917597501e-01, 3.724228558444943049e-01, 7.076810960724122523e-01, 3.056001853403682578e-01, 9.087774115519476892e-01, 8.981430353638428232e-02, 8.212606161159374807e-03, 7.167803125159150079e-02, 6.968938175788689238e-01, 2.796185938144439831e-01, 2.913002766912750063e-01, 1.535978811009226508e-01, 9.162832766482018609e-01, 2.692609259411642975e-01, 7.586249404789506823e-01, 4.948208265998471633e-02, 4.036753798947871341e-01, 4.758861952037045095e-01, 7.328274906548651879e-01, 3.047378620920134784e-01, 8.323770693935078624e-01, 9.321379258633915033e-01, 9.394744624520329213e-01, 9.149524395793369180e-01, 8.845061163669732940e-01, 8.944862521364901342e-01, 9.935675886306543081e-01, 7.673987445691033971e-01, 6.887128049205833991e-01, 1.617260533427107919e-02, 9.422381470905201173e-01, 3.617639923155668846e-01, 3.621025958447586235e-01, 8.177969424378651597e-01, 9.548543007938202765e-01, 3.175360308903017043e-02, 3.461813599297007271e-01, 3.396282281310176177e-01, 1.934499981593553741e-01, 7.332214235480568609e-01, 9.207161469479369087e-01, 2.438716078774817442e-01, 3.693714945339240385e-01, 9.335486818192986203e-01, 8.845048533903008270e-01, 4.942239177307367060e-02, 4.174218082587781153e-01, 2.496375988058229245e-01, 9.156168934443571494e-01, 6.923712526745254836e-01, 1.961811636238600665e-01, 6.929121768776635992e-01, 9.027587514060247953e-02, 4.150687527087553175e-01, 5.381570889391202872e-01, 5.094021482576931437e-01, 2.331285622923884304e-01, 9.429565470449879916e-01, 1.276501849727405269e-01, 3.922925246455251647e-01, 1.827143325273933860e-01, 9.900533671879603315e-01, 1.402162280422172003e-01, 8.695933706421087317e-01, 1.952731905291999193e-01, 1.804993454573214917e-01, 2.629460338391020890e-01, 1.402444731253657539e-01, 4.560284325535467476e-01, 5.750618091648299623e-01, 5.412703783975306715e-01, 2.773486491690846378e-01, 4.542476545277550626e-01, 9.457200309542230787e-01, 6.623653510693402469e-01, 7.950690140525761285e-01, 9.293826469492374454e-01, 4.121169565161265647e-01, 5.284908977560467402e-01, 8.034787677241748138e-01, 2.067056065065019377e-01, 8.072212513846367399e-01, 9.149588798911252319e-01, 2.104889899518897767e-01, 2.660974751465255417e-01, 9.771077074458493772e-02, 7.443240528136032541e-01, 6.584581265849516196e-01, 5.354351382506570278e-01, 4.248214230900326238e-01, 8.693467045138214555e-02, 4.052071838691366223e-01, 8.719532290119977880e-01, 9.517774053606574691e-01, 4.041100050897156737e-01, 8.599405960730881482e-01, 2.852800768655919805e-01, 3.277433327358206805e-01, 4.638253840019226221e-02, 2.512677476993874781e-01, 7.430743000397186382e-01, 1.418333952432214995e-01, 5.908271033974102915e-01, 5.427350039300993245e-02, 8.718273018212773229e-01, 3.991676572263599398e-01, 6.649090596593386637e-01, 6.167259196034694524e-01, 4.059016954079133765e-01, 5.124320242247359936e-02, 2.291661967762534946e-01, 9.607512595024210456e-02, 4.318428492801392737e-01, 9.108239380456877310e-01, 1.383532892903754918e-01, 4.923708354858894465e-01, 8.537176651653051174e-01, 8.946103921211234766e-01, 3.493808686109526329e-01, 1.201052475721279683e-01, 9.091402883419291703e-01, 4.133548460102848821e-01, 7.809584917631708922e-01, 9.647503436599684790e-01, 4.885930434586086002e-01, 2.200089071721180456e-01, 3.218893789953414242e-01, 2.100104441337917738e-01, 2.687266200855338849e-01, 6.838993004809305054e-01, 3.112447700380784887e-01, 1.108284085879638892e-01, 7.057770354138023228e-01, 3.637631462645349312e-01, 1.895856872381888603e-01, 4.986146901829149880e-01, 4.260192003980265985e-01, 3.643481376071400768e-01, 3.291485134753308062e-01, 5.345759873091210368e-01, 8.907342381159896183e-01, 8.532167887903459313e-02, 2.956577263138947531e-01, 5.312523277239235009e-01, 1.301694324613272835e-01, 4.419851354371344132e-01, 1.460115797375087787e-01, 4.413341367426504847e-01, 2.412367135625718417e-01, 6.330279344608732428e-01, 5.815418805991284801e-01, 9.648706444989652020e-01, 9.855002577902738370e-02, 6.235694290614159918e-01, 8.629257989786066618e-01, 4.099889861520967238e-01, 4.787066831196930966e-02, 6.019906257710547770e-01, 1.988390612844656846e-01, 9.535481438117011654e-01, 2.971310819643561141e-01, 3.867166078892294578e-01, 8.480965763329433305e-01, 7.125084828929202363e-01, 2.713521952850429519e-01, 1.723113746958110370e-01, 1.979036689125066029e-01, 3.833178268529363053e-01, 9.146177647035415026e-01, 7.887361304824321850e-01, 8.800314397442303704e-01, 8.889163850006500667e-01, 7.799032961484025916e-01, 5.977502869299723409e-01, 9.645569738148758177e-01, 3.454443578002154291e-01, 7.790382121689416461e-01, 2.125268002952509783e-01, 4.377029886753843746e-01, 6.072649526820983468e-01, 5.977292240918752331e-01, 5.722523474067849891e-01, 4.487565865858181846e-01, 3.998362802823871021e-02, 2.970972309735604999e-01, 9.297481794867580307e-01, 4.201403974919760628e-03, 2.291813672915993527e-01, 2.695630408619087426e-01, 1.077557060746524853e-01, 7.130244375614640528e-01, 8.018730401581529721e-01, 7.788765841203126872e-02, 6.512768723452094788e-02, 9.072098777736657960e-01, 6.174309304651104391e-01, 8.395732389832339937e-01, 2.561683761219335498e-01, 8.711775539562031101e-01, 8.222825179130019424e-02, 3.498324179166383274e-01, 2.236197497148178781e-01, 2.039941098177394108e-01, 2.228971061423917766e-02, 3.704861453834176754e-01, 2.949796220359104937e-01, 6.669712964820174728e-01, 6.519542970888276834e-01, 4.791777719937515556e-01, 4.491389067858191364e-01, 3.259873752061607788e-01, 6.146788778536264042e-01, 1.739464473326418625e-01, 3.547252386657776535e-01, 7.619639500198487347e-01, 2.291890984774961892e-01, 4.691496014130848158e-01, 1.725425153821329438e-01, 7.836606109900670081e-01, 8.036343375310271986e-01, 9.646480303761753028e-01, 2.845682052028085662e-01, 9.848304653559060151e-01, 8.171497924730628526e-01, 6.559666398574559576e-01, 4.403460692512666808e-01, 2.888863588954976303e-01, 5.206373910088102352e-01, 5.145903617539385744e-01, 6.812024520509413206e-01, 9.604737388731988679e-01, 3.979022727998912101e-01, 5.976499129036580982e-01, 9.824616138211409444e-01, 7.741839676983858221e-01, 6.621049480329104231e-01, 4.379040122753208308e-02, 8.618857166802338376e-01, 8.132533992736123984e-01, 9.972660144226950241e-01, 4.676510025261088055e-01, 8.612784768569264893e-01, 4.230913622199454771e-01, 7.391002667064083820e-02, 2.902457846710931877e-01, 5.824155722691864989e-01, 3.599723353581171237e-01, 3.314031271920897526e-01, 8.932289231111294470e-01, 4.654674081513492379e-01, 2.028784712820725922e-01, 6.029149140736100865e-01, 3.467702465332571649e-01, 9.235865574843955539e-01, 5.509769320392000624e-01, 6.627020697783648747e-04, 5.726822401013182962e-01, 8.030596438819338490e-01, 6.055402407643420970e-01, 1.932101809038848650e-01, 2.200884171084795948e-01, 6.155927836257259894e-02, 3.139303614925148533e-01, 6.272993301088157780e-01, 2.672007444007242216e-01, 1.262926574706698113e-01, 4.583129721615577523e-01, 8.473938793573566608e-01, 2.458677784084757345e-01, 1.396750775349734491e-02, 1.753805123216953532e-01, 3.212508925655515046e-01, 9.785026106976318916e-01, 3.650698871238097082e-02, 8.247243816264763702e-03, 4.793451928527685535e-01, 8.717404068477216939e-01, 3.562181080428988844e-01, 2.051576803867502796e-01, 7.099609081445017456e-01, 9.567984372157058159e-02, 7.222233807578581910e-03, 8.089790511141070617e-01, 7.746893451173868517e-01, 6.634379723115204630e-01, 2.028479557199458494e-01, 4.803670649749193222e-01, 6.366389455971617206e-01, 6.055329645084784884e-01, 9.364552568177674230e-01, 5.791133054287295190e-01, 1.478856976046254434e-01, 7.073625634843805354e-01, 6.104006089526412548e-01, 7.304151662847090387e-01, 3.379130991403345163e-01, 6.934880260140918740e-01, 7.582514390911331281e-01, 8.971198502322297319e-01, 2.232198358689195805e-01, 9.638365680589046081e-01, 9.819352734290245355e-01, 3.157503680231029120e-01, 7.449399876657234465e-01, 5.379843669643006310e-01, 8.561574953277663047e-01, 3.525257408458062902e-01, 7.366183073492641453e-01, 8.920856140122844780e-01, 4.597820244048198557e-01, 8.762357650658602060e-01, 7.618543633157107697e-01, 2.081218526679616543e-01, 2.200127470332336188e-01, 9.620638867401068994e-01, 8.982606323143621854e-03, 9.220369691199060969e-02, 2.487721931311086543e-01, 6.133074841845813641e-01, 7.275041834231846805e-01, 1.175254657213552767e-01, 9.799263726196320023e-01, 9.650396560834175741e-01, 1.764911311639757660e-02, 4.606075187750594546e-01, 7.292078941309533269e-01, 5.020150553164303142e-01, 5.216860979811090981e-01, 4.203763907866702176e-01, 7.386625486910185501e-01, 6.618620337015186372e-01, 2.361437804825001346e-02, 6.603678047594784273e-01, 5.067386250547608606e-01, 4.723549261141488653e-01, 7.143509002272010466e-01, 4.250544427974489725e-02, 9.313171859837087174e-01, 4.943335605073486683e-01, 7.275438260113940014e-01, 7.361496623237909764e-01, 5.377474606833074766e-01, 4.792040060674677693e-01, 3.349390259159296668e-01, 3.248178705345694528e-01, 8.974319039498942496e-01, 5.261448058251162463e-01, 3.107944784930183335e-02, 9.559333118321249323e-01, 2.396176488363570001e-01, 8.293153589055800579e-01, 4.665610526509376133e-01, 3.856272818221685994e-01, 6.259461975809543777e-01, 9.180185690844294699e-01, 6.585544918004955228e-01, 5.570956516866677234e-03, 1.936834621791178879e-01, 6.943588945729773920e-01, 8.523248849091576984e-01, 3.475955836285080647e-01, 1.121343251838473193e-01, 3.768155162901693500e-01, 9.392660577043575598e-01, 7.939737045974496477e-01, 3.317156915380508053e-01, 1.323254610493873606e-02, 8.263765371834808082e-02, 7.016716562628532161e-01, 1.440545407905020336e-01, 4.253316951129993972e-01, 8.353819952200601806e-01, 1.669595778529043562e-01, 6.138917798888676725e-01, 7.660232190509242978e-01, 8.196363019281075468e-01, 3.495688395052434783e-01, 5.038562582658805411e-01, 4.324310147154051820e-01, 6.172196855195025700e-01, 4.716711737277242689e-01, 6.258042828849966766e-01, 4.881688761738615101e-01, 3.514180438809968443e-01, 1.187532672009045109e-01, 2.477529372419079723e-01, 9.071164295747990991e-01, 8.421089324250996544e-01, 7.861941366141468324e-01, 4.568201833327681372e-01, 9.193554407485488023e-01, 3.509150101379153175e-01, 2.666324436883537596e-01, 4.745648680469443104e-01, 8.997815342428342467e-01, 4.996076795025358730e-01, 1.518709407233579944e-01, 8.849360735689888458e-01, 2.148054850895717571e-01, 5.053484284874604215e-01, 6.018729055992575461e-01, 9.411124925915196338e-01, 4.302328795667554884e-01, 4.705517358396840710e-01, 5.441070544907311568e-01, 4.929761960644232777e-01, 3.746943764784496089e-01, 4.268105792870529047e-01, 6.812509299906607252e-01, 1.728707657947580190e-01, 1.868759061497891061e-01, 6.691131323113396201e-01, 4.348220094621185194e-01, 2.599282473497530055e-01, 5.970148175006051439e-01, 6.656359816370027715e-01, 7.816338129584929906e-01, 7.746007469732681949e-01, 8.085950569450561787e-01, 4.090488641478971510e-01, 8.594702229159396911e-02, 3.022498908733673925e-02, 3.862805419737352364e-01, 3.738087527531617354e-02, 9.173312798592833106e-01, 4.586675429179317698e-01, 4.660600259450319860e-01, 9.260587282783241392e-01, 3.553216984152977043e-01, 3.312097148174345668e-02, 4.147552673418652969e-01, 7.899917721615645760e-01, 1.476334802303704286e-01, 4.681786729811966419e-01, 9.343472636783392016e-01, 3.685779319592165648e-01, 7.837959891034079751e-01, 1.266345516901138391e-01, 2.423749210237760021e-01, 9.509589159905756928e-01, 9.978068608930865113e-02, 8.268652855288085579e-01, 4.809435967658152733e-01, 6.115761922333931011e-01, 3.694746840401116339e-01, 5.332479390041954259e-01, 6.191918250981294225e-01, 7.372657014637392647e-01, 5.851874302360834390e-01, 5.271284723734643851e-01, 7.149576244262361158e-01, 1.071959084976306931e-01, 3.251930434898978595e-01, 8.080664004693027813e-01, 9.600802497813801795e-01, 5.367213345856475248e-01, 9.538551554941704369e-01, 6.079754426125574818e-02, 1.133066069332794856e-01, 5.915794569379223544e-02, 9.137542787409436151e-01, 2.146666459252867809e-01, 8.341015903043615953e-01, 2.336623250310130295e-01, 6.921306152518452715e-01, 2.573485021218065993e-01, 9.380145699729559583e-01, 2.062049395167278865e-01, 7.607825059701366077e-02, 7.086058991464572188e-01, 9.141287318409556384e-02, 1.194599622962173348e-02, 2.608929192493378291e-01, 7.208571070582029394e-01, 9.889735393882144107e-04, 6.024953335869018822e-01, 5.070258429856846494e-01, 8.689731858228971761e-01, 5.570347684154723922e-01, 7.918090400697813669e-01, 2.972395631753689260e-01, 1.727555555569920409e-01, 7.671036704168214815e-01, 8.891726379012901971e-01, 5.466215503772271500e-01, 2.918022211489533224e-01, 8.516290822427933227e-01, 3.164098255162179907e-01, 4.080660996328345780e-01, 2.716652071236587418e-02, 8.177486423406410410e-01, 9.555148046961987607e-01, 6.941624901715921503e-01, 3.107435422672991665e-01, 8.893400462444106536e-01, 1.224071829412041595e-01, 9.655145656689109734e-02, 7.019532692321112100e-01, 6.892954676377419099e-02, 2.884461790678836124e-01, 5.293059913366130464e-01, 2.120546238297575381e-01, 3.810119244247127113e-01, 1.294166793339811827e-01, 4.468701967519044249e-01, 9.724824442255862733e-01, 9.154273219019550822e-01, 2.731402066620706726e-01, 2.280259106031123362e-01, 4.132483245952714990e-01, 9.954021925552523076e-01, 6.451523992568243271e-01, 8.208868892021575769e-01, 5.586640752404427035e-01, 8.904791397091577076e-01, 4.129641207933560376e-01, 1.608956277075805907e-01, 2.740374947732912014e-01, 5.231432588137994999e-02, 6.833719278113309370e-01, 3.938929476609525637e-01, 2.864361043530802009e-01, 5.632362600247230455e-01, 4.288088885510786263e-01, 1.651492279834680388e-01, 1.613918446684495939e-02, 4.428748805855309278e-03, 9.749480226912097258e-01, 7.748107784558545541e-01, 6.540238786486547440e-01, 3.016267940802426772e-01, 4.838418281903421048e-01, 1.035427396883745743e-01, 5.231905221078867602e-02, 1.640361760524131074e-01, 8.242401183157457289e-01, 1.720177304266048424e-01, 4.052570696564334884e-01, 5.936297353037724989e-01, 8.110193904957968547e-01, 5.995032112868253771e-01, 7.384729386157565800e-01, 6.751879834651159928e-01, 1.469062615887468393e-01, 5.003295253523707409e-01, 1.471299254815650048e-02, 8.838711089783858332e-01, 2.537079344837886441e-01, 7.953882990986849144e-01, 1.438306104197724367e-01, 6.169388664572682535e-01, 3.600261831358506637e-01, 8.971458064312496372e-01, 8.260714124054637786e-01, 2.885226480482435685e-01, 3.680671816738371738e-01, 5.897834634846346180e-01, 9.322446089851602613e-01, 4.654701732534316516e-01, 9.816092743391642561e-02, 6.663507859218728013e-01, 5.302553431134193751e-02, 3.309373471540625888e-01, 4.860908795142676597e-01, 7.209307206964870041e-01, 3.322351315326749766e-01, 8.941223549853899444e-01, 6.002868877657896451e-01, 1.168913775327687921e-01, 9.492581758461309249e-01, 1.596944959871906822e-01, 5.084188934512627878e-01, 8.573263371194461691e-01, 2.625424836921889660e-01, 1.197564448037895524e-01, 2.860679246076800950e-03, 3.051599184214517368e-01, 5.910788675334732734e-01, 6.643307836857023085e-01, 6.164999315245377892e-02, 4.567616725178046400e-01, 7.494714001019027183e-01, 7.941064664618373570e-01, 3.278923328396259329e-01, 2.781685641797578268e-01, 5.954750422141358301e-01, 5.457818947217751848e-01, 1.613029376746000221e-01, 8.857128880013628303e-01, 9.510255789017585393e-01, 6.796448498602516985e-02, 6.917306550942176058e-01, 3.687766090061814772e-01, 2.485847235239374564e-01, 8.060461148876504334e-01, 7.023269998273657944e-01, 2.591730794812152627e-02, 1.704902240126380253e-01, 5.062222072932762718e-01, 8.078619578043783056e-01, 7.300646553772934810e-01, 7.063739563396799204e-01, 6.152507815954275650e-01, 7.023512382251831943e-01, 9.626889034312897664e-01, 5.397133497567607741e-01, 2.608168408860440934e-02, 8.728887016150631561e-01, 8.323665132148196921e-01, 4.010976076965602211e-01, 7.044173215812719047e-01, 2.222021629571502566e-01, 5.329631726734252589e-02, 6.301279261838077517e-01, 8.049706013939240679e-01, 3.810957233550665291e-01, 1.950729345157365194e-02, 3.113479471404499987e-01, 9.075298078287892256e-01, 4.206581673804632993e-01, 4.299987853106111979e-01, 7.188815586064625784e-02, 1.596582677040769838e-01, 7.540155795621897861e-01, 9.884618088022210092e-01, 4.942650576339152058e-01, 5.651961111456427211e-02, 5.645210239492415294e-01, 5.197395422409623045e-01, 7.367372620026393371e-01, 9.248058983029399105e-01, 6.558667296552762871e-02, 7.280351829265583330e-01, 9.377704577653189766e-03, 1.461394114911941378e-01, 4.869675618208242351e-01, 7.837893598895274705e-01, 4.345482687963779234e-01, 5.520722480362583173e-02, 7.050331621245773395e-01, 5.372641389129564349e-01, 1.299732573863644491e-01, 8.733152185246154664e-01, 1.869195778379879602e-01, 6.222219471487524523e-01, 4.866799785332980299e-01, 6.022908907785458066e-01, 2.999890141523008369e-01, 4.498607966927162805e-01, 3.907874175483947443e-01, 3.909540230737321709e-01, 1.978999272435199297e-01, 5.769528075051345573e-01, 6.295927625463271227e-02, 3.809838959890934351e-01, 3.890530464474520889e-01, 8.920364710176726941e-01, 9.457177507993844712e-01, 8.736966640443074583e-01, 7.528419671221855958e-02, 7.638069677165542082e-01, 5.772270623969170122e-01, 9.777954230317609241e-01, 6.043028157359080499e-01, 3.238217613190466082e-01, 7.264107886350169574e-01, 5.805326116156818150e-01, 2.289197720368052469e-02, 8.831784396822768279e-01, 8.761465541171020721e-02, 2.223250981375560764e-01, 4.638801989622781119e-01, 4.932349710482545335e-01, 1.589334763705338160e-01, 7.121988967710806140e-01, 3.006178566448036715e-01, 2.252844504663079617e-01, 8.943630789606425990e-01, 2.785362898847518753e-01, 8.984968748978604536e-01, 3.240392933896296679e-02, 7.447251003769650435e-02, 6.472759352384525044e-01, 6.858920931674752364e-01, 1.983489840464788545e-01, 3.089846414807374472e-02, 5.889342062805854594e-01, 3.746212948142197963e-01, 5.973503131472088779e-01, 7.643081457779404841e-01, 8.453828655607110998e-02, 1.325253862948936323e-01, 4.814580002951954762e-01, 5.572323287121075941e-01, 3.123197226474904165e-01, 7.108361671645528623e-02, 6.185544112612548773e-01, 3.278043653890495152e-02, 8.882172538637848058e-01, 4.608135063101787554e-01, 3.273908231476808928e-02, 5.247278955505851883e-01, 1.696826738057012340e-01, 6.793637285210395449e-01, 2.354413300516030594e-01, 2.060654776894120799e-01, 3.584354250059262892e-01, 3.856791269450305926e-01, 3.079881187541033682e-01, 2.928287933715241209e-01, 8.538778401276492236e-01, 1.509593134605161369e-01, 1.109941500206051562e-01, 3.099504586065294706e-02, 6.734587091184311980e-01, 1.243423062714648086e-01, 5.187866072772897574e-01, 1.196446510690307996e-01, 9.167310321811571461e-01, 4.107158294751300787e-01, 1.179261727761502232e-01, 6.440707953234282579e-01, 2.155146753185730457e-01, 4.949795067712613461e-01, 1.486475288134177231e-01, 4.108683510447175280e-01, 6.453719098256599507e-01, 4.303417100636112158e-01, 6.009675349018319679e-01, 8.668031873552192179e-01, 9.365807578762484417e-03, 5.282477506698018965e-01, 5.726368810250946906e-01, 6.435070250718334384e-01, 8.830558666981799254e-01, 4.416151351052265972e-01, 2.996627727590226442e-01, 6.607493095040348763e-01, 9.607850046626779106e-01, 8.243664697117922824e-01, 1.482942419645300602e-01, 4.440067743275998846e-01, 3.208827589385948587e-01, 5.683408769698826690e-01, 3.371387574588709524e-01, 3.782788796386530872e-01, 1.214658921125267160e-01, 4.789525703471451679e-01, 1.778761631066120286e-01, 4.635237733251841297e-01, 8.209720195084874161e-01, 6.361457000565017283e-01, 8.269872789234736787e-01, 1.005812861536900110e-01, 4.492041163406097493e-01, 9.029260185419047194e-03, 9.545663157411655719e-01, 1.479200135762554491e-01, 4.172962729990176145e-02, 7.045557604772847426e-01, 2.267858359933578039e-01, 3.296015064270884642e-01, 5.436128828563532300e-01, 1.587198822396571618e-01, 4.149039058607120745e-01, 8.209878909004368897e-01, 5.650644398707352911e-01, 8.989915507806270911e-01, 3.428755547012948268e-01, 4.307821285623241181e-01, 5.979019528062199385e-01, 9.067016789864692505e-01, 9.911638333725251160e-01, 4.541143729002392604e-01, 4.030786935990465225e-01, 6.519765351392298180e-01, 1.758391722971770488e-01, 3.706278532454432284e-02, 3.381854706613440786e-01, 2.433336322523756839e-02, 8.037328404090208211e-01, 5.098631038739577237e-01, 4.585344545015195283e-01, 2.360227204258687483e-01, 3.746203642933233491e-01, 3.736115034689884706e-01, 3.688462008412697335e-01, 4.681261587184237793e-02, 6.574048399357897976e-01, 4.969957949231566530e-01, 3.210212984372452505e-01, 3.790721655432213039e-02, 7.594600116817010749e-01, 3.268582124132932143e-01, 1.451722183598082028e-01, 1.495452712084665847e-01, 3.819085123033063578e-01, 7.249844297755171363e-01, 1.582986688471758885e-01, 2.087157627179029307e-01, 9.356645091776754075e-01, 9.289671602844074005e-01, 2.228671033319072278e-02, 3.500716631199667361e-01, 2.962281816553247737e-01, 8.322409838142537097e-01, 5.604660063040377560e-01, 6.555829460954514243e-01, 7.196425176179915839e-01, 9.012446260224460381e-01, 1.453988463119929297e-01, 3.809073644665326719e-01, 6.230749146895798729e-01, 7.036933226637582806e-01, 3.880956404319853559e-01, 8.380111823009455119e-01, 3.767592276457747968e-01, 9.387907687776143595e-01, 5.418977353643085193e-01, 5.757185986757328289e-01, 8.298585729084385632e-01, 5.255867645838555036e-02, 3.142988032561974121e-01, 7.461813540678363665e-01, 7.731970790698409202e-01, 5.171052237590862966e-01, 4.732573581439710741e-01, 2.317784969288987362e-01, 9.364909496133182465e-01, 5.313372218783557477e-01, 9.366450246461008877e-01, 7.227374482631752084e-01, 5.829624831935551615e-02, 8.337473339075582857e-01, 3.291701257092545796e-01, 4.909499291827345430e-02, 7.353070298281598749e-01, 6.834973888758875127e-01, 5.967718356375195654e-01, 3.953310619665021397e-01, 9.757039810166531213e-01, 9.927318145270512817e-01, 1.232164915296124486e-01, 5.576373525776936457e-01, 3.122038200672172525e-02, 4.730456659524464036e-01, 3.352646023335823511e-01, 6.578887264272030855e-01, 8.777617799739152460e-01, 4.677797208250185079e-01, 7.263910921651389740e-02, 4.585555765743195011e-01, 2.934211690032120790e-01, 3.920946878564812721e-03, 4.458332410235864574e-01, 3.168682033909112628e-01, 7.869423981255389000e-01, 8.203152290999777829e-01, 7.126723834275598968e-01, 8.282761843230221910e-01, 1.052098300744479936e-01, 5.321652148856591547e-01, 5.131541373675239104e-01, 3.725964035811684116e-01, 1.091611019560526641e-01, 3.986812007006448333e-01, 8.742489033912292928e-01, 7.527208440829575853e-01, 2.015759517688609781e-01, 7.996702769447213699e-01, 1.950629066878187823e-01, 5.022976850390012959e-01, 8.348126173050961496e-01, 2.590686440590533324e-01, 6.687485495744246444e-01, 6.734755696537176872e-01, 4.270243850209039932e-02, 4.393491155151634797e-01, 3.143930132239605713e-01, 9.124453664198013403e-01, 3.408808903373019006e-01, 2.187534211005758358e-02, 6.810742946453971491e-01, 1.750757901885452439e-01, 7.586692805376058502e-01, 9.098726700396425615e-01, 8.596594160301419818e-02, 8.763798818610015751e-01, 6.855275399811562309e-01, 9.207539451483817139e-01, 4.349091607031289608e-01, 4.941718361508862234e-01, 6.099786268832564119e-03, 3.205208862675741344e-01, 8.790670265883211432e-01, 1.525023429901407601e-01, 8.088195692821050775e-01, 6.649786584158164926e-01, 4.337906748295858317e-01, 7.346613943045423589e-01, 7.773704105229698458e-01, 3.646500119548075070e-01, 1.922697906497953524e-01, 7.668541530301842268e-01, 3.145461709006656670e-01, 2.663304838963385934e-02, 9.153790738021827522e-02, 3.769349819233647897e-02, 8.116760848538905337e-01, 5.251195874105975964e-02, 6.712256434593470988e-01, 2.722220569168776749e-01, 3.908413910496100208e-01, 2.474327903972770304e-01, 3.736226183354109942e-01, 4.677636785910161410e-01, 3.386205104397639887e-01, 8.046284393694671522e-01, 3.822447904764839643e-01, 8.323080578170525268e-01, 1.891906552819688780e-02, 8.324174630059634206e-01, 8.869944409833822041e-01, 8.872788247617636737e-01, 9.666743303393250386e-01, 8.835377821992514979e-01, 4.482958783289382465e-01, 9.422788435718786326e-01, 4.111706087667343912e-01, 8.318941536696431438e-01, 9.991407681726798273e-01, 4.821966678395469552e-01, 5.239362244564298859e-02, 6.736608038838627355e-01, 4.522216869111250759e-03, 9.929714974435321917e-01, 2.085337864521735751e-01, 2.189539288610451162e-01, 9.603849500295316144e-01, 1.669485849285954615e-01, 9.632729579268788367e-01, 1.281242427988464605e-01, 7.113031755371312936e-02, 7.473589492206087481e-01, 4.131992304457852150e-01, 3.829844490966855530e-01, 5.865454390128075346e-01, 1.503100590462197184e-01, 8.517558068672513860e-01, 6.854494291331580946e-02, 5.067598378485680399e-01, 4.161280040496858068e-01, 2.639132360508684161e-01, 7.911522396256847056e-01, 3.437999723155704679e-02, 7.412035410843560435e-01, 5.178479875284237588e-01, 4.240012200439046142e-01, 2.477631326524737665e-01, 2.901606725569720342e-03, 2.662367361807683741e-01, 6.504928803884587607e-01, 8.649859364530708694e-01, 6.504525094387494377e-01, 3.276081478245040923e-01, 8.165716577406690879e-01, 3.602266076488676583e-01, 4.535678717362306434e-01, 1.075780252009515270e-01, 2.253313202609413257e-01, 3.021117480488170748e-01, 3.242237446900275710e-02, 9.742522919629088562e-01, 5.563540794024173231e-01, 2.826777078967019352e-01, 6.517571906846614249e-01, 1.637322427215559817e-01, 2.603779693099146364e-01, 9.034136085154064189e-01, 1.953371475963411596e-01, 4.716599643293037936e-01, 8.116030325113813282e-01, 4.531225568236418311e-01, 9.319508901817822322e-01, 4.583434225557197483e-01, 3.091665883338335363e-01, 5.606734579134453611e-01, 4.206021682008077023e-01, 4.916682184466768246e-02, 4.667288047277521890e-01, 2.063876611496905378e-01, 3.387678362853888681e-01, 2.559577506918864209e-01, 8.148202452303533461e-01, 6.492020044582597071e-01, 6.137375105937652453e-01, 8.535568167661836680e-01, 4.214940132390173622e-01, 3.246240973913673278e-01, 1.892982531514735833e-01, 2.011564174882913836e-01, 5.831242735473598504e-01, 2.922934677701004569e-01, 8.057423247509686304e-01, 9.571299834928689299e-01, 5.206547330180532063e-01, 1.260652881553821769e-01, 3.358781302233944666e-01, 2.659640153052690234e-02, 8.114686035870311009e-02, 1.225253154459260418e-01, 9.453739391439486273e-02, 7.925930917676277110e-01, 9.668969350871647883e-02, 5.153260979213963866e-01, 8.979874380792032262e-01, 4.203416953809966383e-01, 5.890871019262588354e-02, 5.728072738663231300e-01, 5.385498587574955032e-02, 5.408485492619198309e-01, 1.354017438853880317e-01, 8.954128092056913568e-02, 6.058070188589250726e-01, 8.421338281937958969e-01, 9.532748953019217764e-01, 9.595315047936123776e-01, 7.321509169393503047e-02, 1.278357437242672555e-02, 2.236834177457447392e-01, 6.352943222430086356e-01, 4.306568597401204679e-01, 7.687125358155953991e-01, 3.153829075489240075e-01, 9.993486107176402511e-01, 8.700760758250111193e-01, 9.713105598988595046e-01, 9.991317163607675578e-03, 7.291906592912177354e-01, 2.177179513131773381e-01, 4.482200576037650985e-01, 4.872868950213483652e-01, 9.284177537911193490e-01, 1.866067294851635749e-01, 7.951969961554359312e-01, 8.719916424823341838e-01, 8.515173580108145179e-01, 5.751971267717495007e-01, 8.438125356576051672e-01, 8.449511422279328832e-01, 4.982613938512323593e-01, 2.430433434252310398e-01, 3.430933323817233482e-01, 5.473026526519572110e-01, 8.658526226414995364e-01, 2.295984758696680839e-01, 4.252420986408584902e-01, 1.955342390212858328e-01, 2.953668132075008002e-01, 7.324871279152305181e-01, 6.553794666368812916e-01, 4.757717045935245803e-01, 4.387950145452623740e-02, 1.732238306206760059e-01, 3.103861928376339119e-02, 7.815536664888539375e-01, 4.430058380349555930e-02, 7.283453958201676626e-01, 6.247289110036524651e-03, 8.874764963340230350e-01, 3.036713264280077942e-02, 7.220889643443630934e-01, 1.987791510238665071e-02, 6.065786320239261453e-01, 7.049871680396139206e-01, 5.260174229625982356e-01, 5.591626817440350505e-01, 4.858345550925850520e-01, 5.107217131648781328e-01, 8.937564275018893278e-01, 1.993419362249477800e-01, 5.524943757108533582e-01, 9.975860299787699947e-01, 8.702824499800618785e-01, 5.058479201002327175e-01, 5.383265728436962272e-01, 8.037676249458695077e-01, 8.125479764495386892e-01, 8.116870211784058542e-01, 4.409876245229689684e-01, 7.193912557109701789e-01, 4.008512546260680209e-01, 3.829835487017927975e-01, 6.618966228505908100e-01, 7.110112803336046117e-01, 3.311067321275258379e-01, 4.594416209333055945e-01, 2.326792957803116568e-01, 4.473244475817123034e-01, 8.844492785899230602e-01, 6.317357998860280155e-01, 5.255026040573842483e-01, 9.494507665148684827e-01, 2.880746887053486915e-01, 9.547658813425871083e-01, 4.070273173508973802e-02, 4.931115008182028470e-02, 9.236761485618738554e-01, 8.929887453976309564e-01, 9.017873743485760318e-01, 1.902585393484694798e-01, 2.788031657216799020e-01, 2.944387669041168554e-01, 1.396019567673818275e-02, 1.141130069186489931e-01, 9.829483279353391501e-01, 6.811357230019053910e-01, 2.410063046192770508e-01, 2.174271310187924910e-01, 2.603429215391718232e-01, 1.109884015865435225e-01, 9.419178385384109342e-01, 1.682683598353470755e-01, 2.616804706967021943e-01, 1.850799035158514905e-01, 4.272574560556092194e-01, 5.619866219348778058e-01, 1.626173966217609179e-01, 7.036895279436045092e-01, 9.698170699418733331e-01, 8.656735326812242670e-01, 3.595313169289343636e-01, 3.225130284797969038e-01, 8.220717798982741797e-01, 5.695066986946054621e-01, 6.926882431341013779e-01, 7.372904431386748669e-01, 6.432369426715767169e-01, 7.380822122170686839e-02, 8.553782235072663331e-01, 4.164748102498403437e-01, 5.152169661515578758e-01, 9.841217281427460106e-01, 7.619042270713307641e-01, 4.834724622805495198e-01, 9.609477071276872895e-01, 1.955235627342762628e-01, 3.459596316704132146e-01, 1.662472644279480161e-01, 9.274070385724714205e-01, 5.931489152264615150e-01, 5.379599867694957460e-01, 3.459323455807846170e-01, 8.620797807593667539e-01, 6.101501186893762974e-01, 5.388350115116780081e-01, 4.533829005904255194e-01, 6.624940006489400679e-02, 9.306895044303620246e-01, 1.663417690434914054e-01, 1.958522879361909441e-01, 6.219939679337221916e-01, 2.786866616002967034e-01, 7.841292222034671466e-01, 7.835832077801873075e-01, 8.764523687977913147e-01, 7.153396382009166721e-02, 7.953405738985799278e-01, 7.380988736674907180e-01, 5.392607011709849019e-01, 5.651700526964583693e-01, 1.525862639945063937e-01, 1.838758870113020860e-01, 2.501014796392508344e-01, 8.121554849250224306e-01, 6.693077243986789160e-01, 6.488312947649839124e-01, 3.855589899374382568e-01, 5.520010551962156731e-01, 8.894069744162935720e-02, 1.051224988656860176e-01, 9.480825502135755700e-01, 3.816050806779753279e-01, 8.406323544344892484e-01, 8.542110421313851010e-01, 9.198082361128177009e-01, 9.485989158534340049e-02, 2.600060971118681175e-01, 1.717945765882896714e-01, 9.209535358014571127e-01, 8.663465184828936794e-01, 5.517328665946085176e-01, 5.309544739733493834e-01, 3.744234498803933331e-01, 8.853212823189088310e-01, 8.484015929208105211e-02, 4.717483932524944579e-01, 1.052340434961104715e-01, 2.369330075630411148e-01, 3.279340831968610148e-01, 5.958549259500193207e-01, 9.613326870978692318e-01, 6.924738675284177747e-01, 9.022560515594476582e-01, 2.718240655712151899e-01, 2.736403906923866036e-01, 9.517433042593241924e-03, 3.784917113254561705e-01, 1.073775292710414664e-01, 7.000487743452912248e-01, 5.074138480547566582e-02, 1.993341270938864263e-03, 7.414847203941428155e-01, 2.314847421207806566e-01, 2.083921066248998477e-01, 7.505007031405112050e-01, 4.024101531992889114e-01, 8.960667498494518934e-01, 5.017329377913702926e-01, 9.010784988256045347e-01, 1.367207228117885420e-01, 8.001503575987631844e-01, 9.628059351613268424e-01, 9.554125701040866447e-02, 3.641526156253971913e-01, 1.943969815063363582e-01, 9.362365319777953276e-01, 7.094756891776192731e-01, 3.164543381810745459e-01, 3.924968470965918832e-01, 7.350884424015570184e-01, 5.596043191903284919e-01, 3.734001495297170070e-01, 4.470547440088440405e-01, 2.033025705964358609e-01, 3.204337254719131223e-01, 4.538965854974573721e-01, 2.356814850972321906e-02, 8.768398705939512983e-01, 6.079279113767752651e-01, 7.015422769572188244e-01, 7.095583958475534248e-01, 6.963058510354859232e-01, 3.600502695878186055e-01, 8.270908946611660317e-01, 9.576718597593407434e-02, 9.169908555500997371e-01, 1.142533086716672197e-01, 6.448376900199905837e-01, 8.257489614225893559e-01, 7.462595455438415515e-01, 6.756169596796625099e-01, 5.342499877947066711e-01, 4.556818763560992469e-01, 8.092486023241672877e-01, 5.752236294706402076e-01, 3.920219999871450423e-01, 1.805210614323444762e-01, 3.954173812616229577e-01, 3.077383863670967723e-01, 3.609042510684880578e-01, 3.724031734239025004e-01, 2.844140658793905541e-01, 9.513695739602184842e-01, 8.060175543969591017e-01, 5.154473243407607930e-01, 8.712989202097060071e-01, 4.453705929910729000e-01, 7.701400971384875227e-01, 9.005238006829787700e-01, 2.924706031663356076e-01, 6.918433035125463038e-01, 4.893208989067712733e-01, 9.624575863591122715e-01, 8.010614807728523301e-01, 5.827605075784382249e-01, 7.681572149104411162e-02, 8.587021601001880722e-01, 4.116942823856448719e-01, 4.819827880054653457e-01, 8.583508646892561433e-01, 2.150772869027873548e-03, 1.302507218298979697e-01, 6.508271922333924708e-01, 9.449617085173761533e-01, 4.107664618171470994e-01, 7.325153565402408029e-01, 2.621855937454565799e-01, 6.693651603320990850e-02, 8.171145724423313494e-02, 2.023638213442684186e-01, 6.724632987010566998e-01, 2.578907637703869993e-01, 1.669364286248223583e-01, 8.154531460417134836e-01, 2.051799404030349994e-01, 4.994909326917462145e-01, 3.152110212720382609e-02, 9.600187676183484786e-01, 6.442312880999457869e-01, 6.534300450848764541e-01, 6.810570478440519659e-01, 9.811894409142496443e-01, 9.246851833552636180e-01, 2.374192852278917409e-01, 1.284889968757804701e-01, 2.517830108052750426e-01, 6.207173902843303726e-01, 5.980207993774581121e-01, 9.313035047094602170e-01, 6.984162366963015955e-01, 2.872982140687055930e-01, 3.325037191951885629e-01, 2.797145861079906037e-01, 3.423432761288497939e-01, 9.692501297368664170e-01, 9.022705608299260716e-01, 8.922322722943167861e-01, 3.539576943645031393e-01, 6.371998399726386264e-01, 8.124116763490366599e-01, 2.326020991733781240e-01, 1.566918919211135464e-02, 2.196978126817982213e-01, 8.353659640074450055e-01, 4.134014774197530273e-01, 9.603477931199706497e-01, 5.439297981820317984e-01, 9.775967592886026791e-01, 5.828308454335170419e-01, 6.565198254133932654e-01, 6.797541273544853713e-01, 2.259633894975612567e-01, 7.457312642103919309e-01, 9.974479980687109837e-01, 3.818248511484707564e-01, 9.413726256579590945e-02, 1.695471557723651213e-01, 7.177755600511902534e-01, 6.781304286035059192e-01, 6.224610544859112693e-01, 7.546862510469212193e-01, 2.708233743253843917e-01, 1.616420596643728391e-01, 6.963559352031445382e-01, 5.287861992933996780e-02, 4.619402511799754474e-01, 5.482414207837047471e-01, 6.157910127250793009e-01, 1.806767365300745443e-01, 3.273361016013776048e-01, 1.552798245758039153e-01, 6.549362258802961245e-02, 9.018617061506557508e-01, 7.070192405997218765e-01, 9.424815496040407359e-01, 1.904715688693222053e-01, 5.179741777877037157e-01, 7.507058839018662111e-01, 7.330233556073161294e-01, 8.590274665862318582e-01, 1.139164843646661845e-01, 8.161881926816206834e-01, 9.190622334465904375e-01, 8.000445006871140796e-01, 7.768324486042832433e-01, 9.754253825174343806e-01, 7.542117664784941944e-01, 7.753866880686448582e-01, 5.105332274251299651e-01, 2.765331454353913143e-01, 5.388057306029587767e-01, 1.976847322541825866e-02, 5.591602597978810874e-01, 6.972329412615657640e-01, 9.612646874729295909e-01, 6.741671026648169418e-01, 8.655271833421589456e-01, 3.281493561067493347e-01, 4.929272268614434127e-01, 5.782766426153675976e-01, 4.041995945799347068e-01, 4.140791471713040073e-01, 7.031291556340191207e-01, 7.481152445377439175e-01, 7.234341797411051322e-01, 5.064850019029393247e-01, 5.656440353638502172e-01, 7.887979278919903248e-01, 1.399071273845431396e-01, 6.773314033391503175e-02, 1.085375403559065699e-01, 6.297470342602443649e-01, 6.736762015022254024e-01, 8.921354050182195294e-02, 3.614669313920237381e-01, 8.228604309178769727e-01, 4.008011417913223129e-01, 6.104914613119618583e-01, 9.278729534781202659e-01, 4.848553260902825901e-01, 9.913173056821160678e-01, 2.093575552921530802e-01, 6.624973519829298052e-01, 9.592516336407105326e-01, 4.530249214107811007e-01, 8.623368967912188321e-01, 4.562921130213120624e-01, 8.120252467486264170e-01, 5.256863876264373792e-01, 6.909990223254540709e-01, 7.172884297091802752e-01, 8.681241791441191014e-01, 3.762258241381643553e-01, 8.709659117580599574e-02, 4.739376884003396184e-01, 7.392136085226171938e-01, 9.176701111755970475e-01, 8.504875216253744430e-01, 9.024308629184735198e-01, 3.498708932841487762e-02, 9.257555683642292310e-01, 6.412268881452878322e-01, 9.132584565885182304e-01, 3.593557107245053950e-01, 5.804873651429611758e-01, 2.132058249491775859e-01, 8.137925889201502727e-01, 3.129420908143418778e-01, 7.233619372054443941e-01, 2.573401805227236161e-01, 6.529769267896272655e-01, 8.974713092891536403e-01, 8.329584341264519021e-02, 4.908105047138851540e-01, 4.226137639987330719e-01, 2.720926949415529705e-01, 9.091132688376772908e-01, 3.940640042987727520e-01, 7.292690889904900331e-01, 4.464203650744452689e-01, 5.219655783652817904e-01, 9.064941844258640469e-01, 7.097426917368567789e-01, 3.703640302532130724e-01, 5.768602965394098447e-01, 9.302925476723323817e-01, 2.542031208770014206e-01, 7.656208028478875827e-01, 6.054158128414588447e-01, 1.886951871176446582e-01, 1.421825153328577784e-01, 8.176113711250735383e-01, 8.097481514187385709e-01, 5.571024043237929879e-01, 8.881967902486482824e-01, 4.913591612137713227e-01, 6.620989071818866867e-01, 1.078003740722324744e-01, 6.530780690636864838e-01, 2.016747844332278383e-02, 3.430816269563142784e-01, 1.138770941371072681e-01, 5.727434898668559704e-01, 2.762568380019487790e-01, 2.459037076502408048e-01, 8.782237954971755522e-01, 8.854594408957217055e-01, 8.268289984217597199e-01, 2.965925957197718676e-01, 1.706331974314797828e-01, 6.267165934939231686e-01, 6.891280476037480174e-01, 5.572892886922756750e-01, 4.993103467473529733e-01, 8.533634667737896029e-01, 4.930670596865975308e-01, 6.188125765644989507e-01, 1.940021535421476151e-01, 4.238610028595155566e-01, 4.891770709312017740e-01, 9.087981200432876383e-01, 2.475357517150235942e-01, 2.219162818548862381e-01, 9.087161756642920807e-01, 5.083820375720652374e-01, 2.441805772246273820e-01, 7.975510828316492162e-01, 1.972623711882243169e-01, 5.829698859437509872e-01, 3.604067406831424347e-01, 8.441355562256717959e-02, 1.307643377150306263e-01, 8.836211389376573688e-01, 4.219210559024730856e-01, 5.905355325135445144e-01, 2.957769668058954360e-01, 7.240531712095911177e-01, 4.641793387043565144e-01, 4.030372025033044370e-01, 3.820840278853358529e-01, 4.935821310119740124e-01, 4.601282932217158339e-01, 1.180822304188712257e-01, 7.099399321147413788e-01, 9.862828267053759257e-01, 6.695973064288243126e-01, 8.171227647470036271e-01, 1.809559257357200857e-01, 5.193859887363803107e-01, 1.309483981600404467e-01, 5.752120136164792230e-01, 3.091250179540591114e-01, 8.199119835875309237e-01, 5.673729044694696411e-01, 9.140819373809089265e-02, 7.501797126903734236e-01, 3.194934584246814785e-02, 7.533076342762722311e-01, 1.129832886996805091e-01, 3.643786637904473102e-01, 2.531067879959267297e-01, 3.596759062340159074e-01, 7.822205931719307115e-01, 1.952106472155465677e-01, 3.463570130477641174e-01, 4.446104235082311007e-01, 1.962683427926217028e-01, 2.028586758256570033e-01, 3.528109037106534895e-01, 7.840707972755593946e-01, 5.616411957506716179e-01, 3.036161095917246783e-02, 7.938999886654855842e-02, 5.112476798580910531e-01, 8.243576983262419500e-01, 6.291389341892882348e-01, 8.713233990989378563e-01, 5.557619280251910876e-01, 4.135129395024709775e-01, 6.212272549828731227e-01, 1.333201907655762464e-01, 7.022205086924830919e-01, 8.989955438096339790e-01, 3.474615680815742458e-01, 2.883932722039517782e-01, 6.475908270362390473e-01, 8.268084885217827917e-01, 3.926022644552352725e-01, 7.812344898250691561e-01, 7.685192911898538481e-01, 9.754921465313797224e-01, 7.817669201234990206e-01, 4.541035104283867585e-01, 7.684786971962797031e-01, 7.725549374184407236e-01, 3.351260896573657333e-01, 8.640766438752826017e-01, 3.665646333732915374e-01, 3.909669094295116776e-01, 2.291087184165443436e-01, 8.273541581101127029e-01, 8.538924627143077428e-01, 4.678982944002387789e-01, 9.668293401577106039e-01, 8.230684072797713746e-01, 4.285478970382722991e-02, 7.323260040633461365e-02, 5.860629667062458026e-01, 1.726864699702146955e-01, 2.572212292915280196e-01, 7.501762798694977530e-01, 6.438460721330316883e-01, 1.026803505355465551e-01, 4.628226406315878450e-01, 5.232963806669002071e-01, 1.833121795270402365e-01, 5.129708169201252499e-01, 2.536108741170896019e-01, 6.488334530215983387e-01, 8.454403217587908026e-01, 4.395539544481914529e-01, 2.672704089323069132e-01, 6.747310326923497970e-01, 6.109918968002944206e-01, 4.444802984340016083e-01, 7.601676150872088700e-01, 5.743502076404285450e-01, 6.346052529582318913e-01, 9.113915257219012966e-01, 9.552781750944158157e-01, 8.031596309289957825e-01, 1.626631561608128662e-01, 2.113075650475133571e-01, 1.523118864482964074e-01, 8.383648492978128530e-01, 9.905843074166714723e-01, 5.302479843629004375e-01, 3.039292440334522283e-01, 3.290524001917719543e-01, 1.684807893334688000e-01, 8.063819905627528373e-02, 6.582535672798116577e-01, 7.728312352338028157e-01, 5.688828386048322416e-01, 1.061847061887275095e-01, 2.896961588710188495e-01, 8.363049533141347913e-01, 9.251610069553144466e-01, 9.833188397109193790e-02, 4.478206690446815408e-01, 8.753912927984794923e-01, 5.143336725046844249e-01, 3.910480657575907126e-01, 2.492238973140631364e-01, 8.453274456522128499e-01, 1.029764391274534674e-02, 5.495624546765104368e-01, 6.320727113139772424e-01, 8.772862234896660061e-01, 5.551369066454800993e-01, 9.251045231937294888e-01, 3.828328326015413285e-01, 7.354468783790298891e-01, 8.213969828456725297e-01, 2.229997681062947379e-01, 5.562150767790761119e-01, 5.198734784420043775e-01, 5.445869451908739167e-01, 7.802692413075033029e-01, 1.464609452234727771e-01, 6.901441269557667679e-01, 3.771587508421189727e-02, 9.599777567529976796e-02, 8.200679977300020518e-01, 1.387660729973589913e-01, 9.206671802402648097e-02, 6.024336239757154265e-01, 6.733393509419751677e-01, 6.045994055609866802e-01, 7.063453503708807535e-01, 5.692056111349198116e-02, 6.768998936643711994e-01, 7.535039178016353922e-01, 8.647444808650749382e-01, 3.977268667453442985e-01, 4.956717942682410394e-01, 3.860014462118128153e-01, 1.120782699032352309e-01, 3.952457968705709312e-01, 2.773488977840822267e-01, 1.911496029922285234e-01, 2.430172403282221671e-01, 1.200620232440685053e-01, 9.847063167193381705e-02, 2.052992420631661041e-01, 5.039960382217869572e-01, 7.972019877872702498e-01, 5.546387233275502648e-01, 9.455857248719318209e-01, 4.505199438891811514e-01, 6.414411363032770375e-01, 3.265140705702591628e-01, 2.629311862390770194e-01, 5.842348026557858676e-01, 1.454756375683135261e-01, 7.594728045087451029e-02, 3.546183432109737965e-01, 9.783833929020536724e-01, 8.123259824794348827e-01, 9.334809569120677830e-01, 2.056065921403633923e-01, 1.716424554051181328e-01, 7.239746033370199341e-02, 2.138502012085987669e-01, 9.498931703068965726e-01, 1.887543875358322909e-01, 1.639766585422649525e-01, 7.263386280566046516e-01, 9.135199055712217575e-01, 6.235906143466184437e-01, 2.011565647809736568e-01, 3.598440735700136894e-02, 2.616971836784641181e-01, 5.045518230907519719e-01, 7.847794578009120725e-01, 3.611222185122633377e-01, 1.137230434726288486e-02, 3.248534477619222094e-01, 3.190967299322883810e-01, 9.733443488665650678e-01, 2.509059762700267537e-01, 7.445790683881714500e-01, 5.278924056045126711e-01, 3.409241197249043287e-01, 5.735082557483898169e-01, 3.032463732323127381e-01, 6.696265336147140257e-01, 9.422275707064436956e-01, 5.387013344614877131e-02, 7.650272834787325005e-01, 2.252139538280630848e-01, 2.269840520565589159e-01, 4.159269642639084608e-01, 9.817196235241146818e-01, 3.874946505461200619e-02, 2.932472552525178244e-02, 9.913469403384028711e-01, 7.950585420186552510e-02, 8.962049398966806524e-02, 5.125817094405734492e-02, 7.626266041655196393e-01, 4.317909158227026256e-01, 1.185992121889348772e-01, 1.634513186592459755e-01, 1.658125481763249309e-01, 6.188807328424217324e-01, 8.665133668496698416e-01, 8.400757460490480000e-01, 5.529599758442249602e-03, 3.991985764511591928e-01, 8.073293807859294180e-01, 1.164784780510877554e-01, 2.425979033639767968e-01, 9.350023716108504801e-03, 1.568776855687453731e-01, 6.523399203500763743e-01, 8.685433071285171280e-01, 8.455495315069481155e-01, 7.620127222822098423e-01, 7.405776787783487081e-02, 1.544391533121230176e-01, 5.129810868341233565e-02, 6.160365795421635093e-01, 3.534548965403583320e-01, 2.382760384996831515e-01, 5.703425899892379247e-01, 6.627560502834906053e-01, 9.259217451781903696e-02, 1.151782025079444022e-01, 1.060881142940278687e-01, 4.050432846538487563e-01, 2.272058092116537864e-01, 2.502640007375089293e-01, 4.644405807209759374e-01, 1.686919868418885471e-01, 1.827148635504688146e-01, 6.951466532490926387e-01, 6.015443832960357673e-01, 3.910994727933858606e-01, 2.478053441925519643e-02, 3.848614783305521758e-01};
pfloat num_err_b[120] = {6.051574859020307784e+00, -3.128790047920409823e+00, 9.668338262954762286e+00, 5.580622664693583701e+00, 1.993727429988985733e+01, 1.656874289968039093e+01, 2.346651328645908752e+00, 1.409263346998184829e+01, -7.369319526763069561e+00, 3.617161210314585595e-01, 1.453333406263536176e+01, 2.671782335281198684e+00, 1.136027324904854652e+01, 1.276472704113650813e+01, 1.041323118938775849e+01, 1.224986140777210331e+01, 7.100179555368693052e+00, -6.084567434506704231e+00, 4.116865093543807141e+00, 2.186311343374041538e+00, 8.992179995215982657e+00, -1.158280468009878028e+01, 8.357824854290839767e+00, 1.667083107665634722e+00, 3.644879335905578888e+00, 1.519864145750608664e+01, 2.833615356848223410e+00, 1.595006908424185710e+01, -1.352840917697438083e+00, 4.159454587339494580e+00, 3.370118009598003450e+00, 5.040705782489397713e+00, 1.295734257076057050e+00, 2.396487541214632255e+00, -1.209002831129502198e+01, -2.557130593692976461e+00, -6.023873852933030904e+00, -4.774075621302029671e-01, 2.024805284025573826e+01, 2.267705439959805247e+01, -1.444307766545631999e+01, 1.414014788282409674e+00, 3.104438450841843888e+00, 5.952984026409053442e+00, 2.245397806325111389e+01, 2.232641610980059710e+01, -4.815226456012359435e+00, 6.268303698161830084e+00, 4.860252192118474035e+00, -1.937786796626093277e+01, -1.119887814881757571e+01, -1.121373213561513182e+01, 1.086425395083402456e+01, 6.687525406193436162e+00, 2.350139288627653755e+00, 1.561437623693350929e+01, 8.762405252890852481e+00, 1.173242149991463457e+01, -6.291652772319391573e+00, 3.687277580102323427e+00, 1.241174584477459142e+01, 2.845412796526484911e+01, 8.923216157116604208e+00, -9.106229869079490058e+00, 2.746213640562053193e+00, -8.353339810150669509e-01, 2.034938254264865076e+00, -6.000752461659915049e+00, 1.202851136318576231e+01, -4.598443195942552464e+00, 1.528315542853818521e+01, 1.673662560644668007e+00, 1.064955791790733386e+01, 2.711070148148524428e+00, 2.138547335572951980e+01, 9.943298547132867427e+00, 1.740130763533606517e+00, 1.322064711299448092e+01, -6.070816869146623773e+00, 3.401690638042141890e-01, 2.143556888193753807e+01, 1.989263896924610364e+00, 5.389395335273002630e+00, 7.980097372568332403e+00, -1.405339000413936468e+01, 5.142274583784577580e+00, 2.896287848014980781e+01, -3.557411359696351028e+00, 2.204707749313112686e+01, 2.960141664694427188e+00, 5.096301460444852438e+00, -1.019616510935355258e+01, -2.281795740100811987e+00, 1.385122987118468529e+01, 8.793721282549942231e+00, 6.927648137920524363e+00, -1.068610706282222012e+01, 7.739302932815222968e-01, 5.759199009938980041e+00, 4.609563086219530703e+00, 2.193577176732472100e+00, -8.708982623644962118e+00, 7.343818135188934448e+00, 1.500751253014427888e+01, 3.146164721712807921e+00, 8.644866441862378181e+00, 1.253934891896493653e+01, 1.600684816849268088e+01, -8.973751711830313837e+00, 2.515821256622812641e+00, 2.926373635684337415e+01, 4.230164944321417764e+00, -1.337738250303470089e+01, 4.248127445024653781e+00, -6.314255974525667670e-01, 1.544062249265124365e+01, 1.666817878120740204e+01, -1.813751392471079527e+00, -5.622706785488356118e+00, -6.670030008904731522e-01};
 
static char * test_num_err(){
pwork *mywork;
idxint exitflag;
 
/* print test name */
printf("======================================= num_err =======================================\n");
 
/* set up data */
mywork = ECOS_setup(num_err_n, num_err_m, num_err_p, num_err_l, num_err_ncones, num_err_q, num_err_nexc,
                    num_err_Gpr, num_err_Gjc, num_err_Gir,
                    num_err_Apr, num_err_Ajc, num_err_Air,
                    num_err_c, num_err_h, num_err_b);
if( mywork != NULL ){
/* solve */
exitflag = ECOS_solve(mywork); }
else exitflag = ECOS_FATAL;
 
/* clean up memory */
ECOS_cleanup(mywork, 0);
 
mu_assert("num_err: ECOS failed to produce outputflag UNBOUNDED", exitflag == ECOS_DINF );
return 0;
}
