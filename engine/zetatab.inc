// zeta(m), m=-200..200 (generated with mpmath, 60 digits)
static const int ZETAM=200;
static const __float128 ZETATAB[]={
0.0Q,
1.82353863225956771810691544327749724524341173e+213Q,
0.0Q,
-1.82707526628145769438663944090360651251283574e+210Q,
0.0Q,
1.86807314712659138998396980689386402426120443e+207Q,
0.0Q,
-1.94947321749272591308734114000718210256814556e+204Q,
0.0Q,
2.07691380042876080434623778928613955784714312e+201Q,
0.0Q,
-2.25939019954752532049562261337407720550274201e+198Q,
0.0Q,
2.5103329345077586512959905798584037824668127e+195Q,
0.0Q,
-2.84928905509945827581152102173788852811015974e+192Q,
0.0Q,
3.3045071443226032228306908624265079264238487e+189Q,
0.0Q,
-3.91691325947728254682903333390900123473211368e+186Q,
0.0Q,
4.74627186549076153992212525721712652551816727e+183Q,
0.0Q,
-5.88083933116743712482207044549567919347352367e+180Q,
0.0Q,
7.45269103043008957309390945203506551161541114e+177Q,
0.0Q,
-9.66241211085609184243169684777934860657838245e+174Q,
0.0Q,
1.28194898634822427378088228065956967928127061e+172Q,
0.0Q,
-1.74094659203776765075736879891677570839046646e+169Q,
0.0Q,
2.42074586458685147183142674899499199763211739e+166Q,
0.0Q,
-3.44734204444776767046094275989746154167882449e+163Q,
0.0Q,
5.02940165764110497246840522742008199574035925e+160Q,
0.0Q,
-7.51923119519817697500081265839476626902310535e+157Q,
0.0Q,
1.15235772200211685798051266585179909297133768e+155Q,
0.0Q,
-1.81089321625689040160530678803906534955183462e+152Q,
0.0Q,
2.91896123747703236500405982200777403056231503e+149Q,
0.0Q,
-4.8276485422727371781610174281851987864792672e+146Q,
0.0Q,
8.19521522183137829409187036949842580227519634e+143Q,
0.0Q,
-1.42840675004435277005808820900988480644401017e+141Q,
0.0Q,
2.55719382310602058749858077137699708206010468e+138Q,
0.0Q,
-4.70384706196360145151382798619619181069126211e+135Q,
0.0Q,
8.89369916950329690887674533236235119570266262e+132Q,
0.0Q,
-1.72909076066767483167489207071047115490659824e+130Q,
0.0Q,
3.45804291415777717919922833642595805436646785e+127Q,
0.0Q,
-7.11698791882545486286760649290561746677477232e+124Q,
0.0Q,
1.50798315341647712056833365643992760929827917e+122Q,
0.0Q,
-3.2909225357054443486770614085681469546175936e+119Q,
0.0Q,
7.40034257052690942716920556052880600766415929e+116Q,
0.0Q,
-1.71552445340320193922071524606451754951832863e+114Q,
0.0Q,
4.10163461615422921089084567379415433179061672e+111Q,
0.0Q,
-1.01191128757045976050079557959735554499660252e+109Q,
0.0Q,
2.57733267027546045028964793299845281238115134e+106Q,
0.0Q,
-6.78055547530909588969025102131021276485284021e+103Q,
0.0Q,
1.84356474272565291185736028805941103713109875e+101Q,
0.0Q,
-5.1830949148264563776122479037512006593870955e+98Q,
0.0Q,
1.5076656758807859775594849894498413056156445e+96Q,
0.0Q,
-4.54006522960926552491870532302694057554744292e+93Q,
0.0Q,
1.4162025212194809258360179975862891770304445e+91Q,
0.0Q,
-4.57898726822657976538994744683455952840385221e+88Q,
0.0Q,
1.53560288464224230702071420132591780569397802e+86Q,
0.0Q,
-5.34501604252886240053956094627541103409617625e+83Q,
0.0Q,
1.93235142334198120033323266083801569104492989e+81Q,
0.0Q,
-7.26120088036067163036772815107068472322350312e+78Q,
0.0Q,
2.83822495706937069592641563364817647382846809e+76Q,
0.0Q,
-1.15490239239635196639542716915652390488677204e+74Q,
0.0Q,
4.89623270396205532068492245156313131818716014e+71Q,
0.0Q,
-2.16456348684351856313351361598085319850799364e+69Q,
0.0Q,
9.98755741757275306806527774081542360206091184e+66Q,
0.0Q,
-4.81432188740457693551295700659768957982792983e+64Q,
0.0Q,
2.42673403923335240780208920670921200897423849e+62Q,
0.0Q,
-1.28045468879395087901908497563228972146866412e+60Q,
0.0Q,
7.07987744084945806174529724333946914768798471e+57Q,
0.0Q,
-4.10670523358102124797520450040716500197799987e+55Q,
0.0Q,
2.50194790415604628436566614985166234609052752e+53Q,
0.0Q,
-1.60293645220089654060671023457729429797143543e+51Q,
0.0Q,
1.0813635449971654696354033351133859607177749e+49Q,
0.0Q,
-7.69198587595071351674100759717852143844331256e+46Q,
0.0Q,
5.77753863427704318248848256878643874120688931e+44Q,
0.0Q,
-4.58929744324543321688639890060928360621742016e+42Q,
0.0Q,
3.86142798327052588930927202002326501197779417e+40Q,
0.0Q,
-3.44737825582780538782564550799534311840454021e+38Q,
0.0Q,
3.27156342364787162642112270156687034136081495e+36Q,
0.0Q,
-3.30660898765775767256802146704392100833333333e+34Q,
0.0Q,
3.56665820953755561096845746086518289877902519e+32Q,
0.0Q,
-4.11472887925579786976654860676193361581920904e+30Q,
0.0Q,
5.08906594686622896897663329159119252873563218e+28Q,
0.0Q,
-6.76458823792928209909452423017984776756706581e+26Q,
0.0Q,
9.68995788746359406564979428946540880503144654e+24Q,
0.0Q,
-1.50017334921539287337114401515151515151515152e+23Q,
0.0Q,
2.51804719214510956970890233202255261078790491e+21Q,
0.0Q,
-4.59798883436565034904379432624113475177304965e+19Q,
0.0Q,
9.16774360319533077569927536231884057971014493e+17Q,
0.0Q,
-2.00403106565162527381084216632389389864472921e+16Q,
0.0Q,
4.82414483548501703715816703621581670362158167e+14Q,
0.0Q,
-1.28508504993050833333333333333333333333333333e+13Q,
0.0Q,
3.80879311252453688115530220793378688115530221e+11Q,
0.0Q,
-1.26357247959166666666666666666666666666666667e+10Q,
0.0Q,
4.72384867721629901960784313725490196078431373e+8Q,
0.0Q,
-2.00526957966880789461434622724945305590466881e+7Q,
0.0Q,
9.74936823850574712643678160919540229885057471e+5Q,
0.0Q,
-5.48275833333333333333333333333333333333333333e+4Q,
0.0Q,
3.60751054639804639804639804639804639804639805e+3Q,
0.0Q,
-2.81460144927536231884057971014492753623188406e+2Q,
0.0Q,
2.64562121212121212121212121212121212121212121e+1Q,
0.0Q,
-3.05395433027011974380395433027011974380395433Q,
0.0Q,
4.43259803921568627450980392156862745098039216e-1Q,
0.0Q,
-8.33333333333333333333333333333333333333333333e-2Q,
0.0Q,
2.10927960927960927960927960927960927960927961e-2Q,
0.0Q,
-7.57575757575757575757575757575757575757575758e-3Q,
0.0Q,
4.16666666666666666666666666666666666666666667e-3Q,
0.0Q,
-3.96825396825396825396825396825396825396825397e-3Q,
0.0Q,
8.33333333333333333333333333333333333333333333e-3Q,
0.0Q,
-8.33333333333333333333333333333333333333333333e-2Q,
-5.0e-1Q,
0.0Q,
1.6449340668482264364724151666460251892189499Q,
1.20205690315959428539973816151144999076498629Q,
1.08232323371113819151600369654116790277475095Q,
1.03692775514336992633136548645703416805708092Q,
1.01734306198444913971451792979092052790181749Q,
1.00834927738192282683979754984979675959986356Q,
1.00407735619794433937868523850865246525896079Q,
1.00200839282608221441785276923241206048560585Q,
1.00099457512781808533714595890031901700601953Q,
1.00049418860411946455870228252646993646860644Q,
1.00024608655330804829863799804773967096041609Q,
1.00012271334757848914675183652635739571427511Q,
1.0000612481350587048292585451051353337474817Q,
1.00003058823630702049355172851064506258762795Q,
1.00001528225940865187173257148763672202323739Q,
1.00000763719763789976227360029356302921308825Q,
1.0000038172932649998398564616446219397304547Q,
1.00000190821271655393892565695779510135325857Q,
1.00000095396203387279611315203868344934594379Q,
1.00000047693298678780646311671960437304596645Q,
1.00000023845050272773299000364818675299493504Q,
1.00000011921992596531107306778871888232638725Q,
1.0000000596081890512594796124402079358012275Q,
1.00000002980350351465228018606370506936601184Q,
1.00000001490155482836504123465850663069862886Q,
1.00000000745071178983542949198100417060411945Q,
1.00000000372533402478845705481920401840242323Q,
1.00000000186265972351304900640390994541694806Q,
1.00000000093132743241966818287176473502121981Q,
1.00000000046566290650337840729892332512200711Q,
1.0000000002328311833676505492001455975940495Q,
1.00000000011641550172700519775929738354563095Q,
1.00000000005820772087902700889243685989106305Q,
1.00000000002910385044497099686929425227884046Q,
1.00000000001455192189104198423592963224531842Q,
1.00000000000727595983505748101452086901233806Q,
1.00000000000363797954737865119023723635587327Q,
1.00000000000181898965030706594758483210073009Q,
1.00000000000090949478402638892825331183869491Q,
1.00000000000045474737830421540267991120294886Q,
1.00000000000022737368458246525152268215779787Q,
1.00000000000011368684076802278493491048380259Q,
1.00000000000005684341987627585609277182967524Q,
1.00000000000002842170976889301855455073704943Q,
1.00000000000001421085482803160676983430714174Q,
1.00000000000000710542739521085271287735447996Q,
1.00000000000000355271369133711367329846953406Q,
1.0000000000000017763568435791203274733490144Q,
1.00000000000000088817842109308159030960913864Q,
1.00000000000000044408921031438133641977709403Q,
1.00000000000000022204460507980419839993200942Q,
1.00000000000000011102230251410661337205445699Q,
1.00000000000000005551115124845481243723736591Q,
1.00000000000000002775557562136124172581632454Q,
1.00000000000000001387778780972523276283909491Q,
1.00000000000000000693889390454415369744608533Q,
1.0000000000000000034694469521659226247442715Q,
1.00000000000000000173472347604757657204897297Q,
1.00000000000000000086736173801199337283420551Q,
1.00000000000000000043368086900206504874970236Q,
1.00000000000000000021684043449972197850139102Q,
1.00000000000000000010842021724942414063012711Q,
1.000000000000000000054210108624566454109187Q,
1.00000000000000000002710505431223468831954621Q,
1.00000000000000000001355252715610116458148523Q,
1.0000000000000000000067762635780451890979953Q,
1.0000000000000000000033881317890207968180857Q,
1.00000000000000000000169406589450979916540649Q,
1.0000000000000000000008470329472546998348247Q,
1.00000000000000000000042351647362728333478623Q,
1.00000000000000000000021175823681361947318442Q,
1.00000000000000000000010587911840680233852265Q,
1.00000000000000000000005293955920339870323814Q,
1.00000000000000000000002646977960169852961134Q,
1.00000000000000000000001323488980084899080309Q,
1.00000000000000000000000661744490042440406736Q,
1.00000000000000000000000330872245021217158895Q,
1.00000000000000000000000165436122510607564623Q,
1.00000000000000000000000082718061255303444037Q,
1.0000000000000000000000004135903062765160926Q,
1.00000000000000000000000020679515313825767044Q,
1.00000000000000000000000010339757656912870993Q,
1.0000000000000000000000000516987882845643132Q,
1.00000000000000000000000002584939414228214268Q,
1.0000000000000000000000000129246970711410667Q,
1.0000000000000000000000000064623485355705318Q,
1.00000000000000000000000000323117426778526539Q,
1.00000000000000000000000000161558713389263252Q,
1.0000000000000000000000000008077935669463162Q,
1.00000000000000000000000000040389678347315808Q,
1.00000000000000000000000000020194839173657903Q,
1.00000000000000000000000000010097419586828952Q,
1.00000000000000000000000000005048709793414476Q,
1.00000000000000000000000000002524354896707238Q,
1.00000000000000000000000000001262177448353619Q,
1.00000000000000000000000000000631088724176809Q,
1.00000000000000000000000000000315544362088405Q,
1.00000000000000000000000000000157772181044202Q,
1.00000000000000000000000000000078886090522101Q,
1.00000000000000000000000000000039443045261051Q,
1.00000000000000000000000000000019721522630525Q,
1.00000000000000000000000000000009860761315263Q,
1.00000000000000000000000000000004930380657631Q,
1.00000000000000000000000000000002465190328816Q,
1.00000000000000000000000000000001232595164408Q,
1.00000000000000000000000000000000616297582204Q,
1.00000000000000000000000000000000308148791102Q,
1.00000000000000000000000000000000154074395551Q,
1.00000000000000000000000000000000077037197775Q,
1.00000000000000000000000000000000038518598888Q,
1.00000000000000000000000000000000019259299444Q,
1.00000000000000000000000000000000009629649722Q,
1.00000000000000000000000000000000004814824861Q,
1.0000000000000000000000000000000000240741243Q,
1.00000000000000000000000000000000001203706215Q,
1.00000000000000000000000000000000000601853108Q,
1.00000000000000000000000000000000000300926554Q,
1.00000000000000000000000000000000000150463277Q,
1.00000000000000000000000000000000000075231638Q,
1.00000000000000000000000000000000000037615819Q,
1.0000000000000000000000000000000000001880791Q,
1.00000000000000000000000000000000000009403955Q,
1.00000000000000000000000000000000000004701977Q,
1.00000000000000000000000000000000000002350989Q,
1.00000000000000000000000000000000000001175494Q,
1.00000000000000000000000000000000000000587747Q,
1.00000000000000000000000000000000000000293874Q,
1.00000000000000000000000000000000000000146937Q,
1.00000000000000000000000000000000000000073468Q,
1.00000000000000000000000000000000000000036734Q,
1.00000000000000000000000000000000000000018367Q,
1.00000000000000000000000000000000000000009184Q,
1.00000000000000000000000000000000000000004592Q,
1.00000000000000000000000000000000000000002296Q,
1.00000000000000000000000000000000000000001148Q,
1.00000000000000000000000000000000000000000574Q,
1.00000000000000000000000000000000000000000287Q,
1.00000000000000000000000000000000000000000143Q,
1.00000000000000000000000000000000000000000072Q,
1.00000000000000000000000000000000000000000036Q,
1.00000000000000000000000000000000000000000018Q,
1.00000000000000000000000000000000000000000009Q,
1.00000000000000000000000000000000000000000004Q,
1.00000000000000000000000000000000000000000002Q,
1.00000000000000000000000000000000000000000001Q,
1.00000000000000000000000000000000000000000001Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
1.0Q,
};
