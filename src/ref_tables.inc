// generated by tools/gen_tables.py (mpmath): zeta(n), n = 2..127
1.64493406684822643647241516664602518921894990Q,
1.20205690315959428539973816151144999076498629Q,
1.08232323371113819151600369654116790277475095Q,
1.03692775514336992633136548645703416805708092Q,
1.01734306198444913971451792979092052790181749Q,
1.00834927738192282683979754984979675959986356Q,
1.00407735619794433937868523850865246525896079Q,
1.00200839282608221441785276923241206048560585Q,
1.00099457512781808533714595890031901700601953Q,
1.00049418860411946455870228252646993646860644Q,
1.00024608655330804829863799804773967096041609Q,
1.00012271334757848914675183652635739571427511Q,
1.00006124813505870482925854510513533374748170Q,
1.00003058823630702049355172851064506258762795Q,
1.00001528225940865187173257148763672202323739Q,
1.00000763719763789976227360029356302921308825Q,
1.00000381729326499983985646164462193973045470Q,
1.00000190821271655393892565695779510135325857Q,
1.00000095396203387279611315203868344934594379Q,
1.00000047693298678780646311671960437304596645Q,
1.00000023845050272773299000364818675299493504Q,
1.00000011921992596531107306778871888232638725Q,
1.00000005960818905125947961244020793580122750Q,
1.00000002980350351465228018606370506936601184Q,
1.00000001490155482836504123465850663069862886Q,
1.00000000745071178983542949198100417060411945Q,
1.00000000372533402478845705481920401840242323Q,
1.00000000186265972351304900640390994541694806Q,
1.00000000093132743241966818287176473502121981Q,
1.00000000046566290650337840729892332512200711Q,
1.00000000023283118336765054920014559759404950Q,
1.00000000011641550172700519775929738354563095Q,
1.00000000005820772087902700889243685989106305Q,
1.00000000002910385044497099686929425227884046Q,
1.00000000001455192189104198423592963224531842Q,
1.00000000000727595983505748101452086901233806Q,
1.00000000000363797954737865119023723635587327Q,
1.00000000000181898965030706594758483210073009Q,
1.00000000000090949478402638892825331183869491Q,
1.00000000000045474737830421540267991120294886Q,
1.00000000000022737368458246525152268215779787Q,
1.00000000000011368684076802278493491048380259Q,
1.00000000000005684341987627585609277182967524Q,
1.00000000000002842170976889301855455073704943Q,
1.00000000000001421085482803160676983430714174Q,
1.00000000000000710542739521085271287735447996Q,
1.00000000000000355271369133711367329846953406Q,
1.00000000000000177635684357912032747334901440Q,
1.00000000000000088817842109308159030960913864Q,
1.00000000000000044408921031438133641977709403Q,
1.00000000000000022204460507980419839993200942Q,
1.00000000000000011102230251410661337205445699Q,
1.00000000000000005551115124845481243723736591Q,
1.00000000000000002775557562136124172581632454Q,
1.00000000000000001387778780972523276283909491Q,
1.00000000000000000693889390454415369744608533Q,
1.00000000000000000346944695216592262474427150Q,
1.00000000000000000173472347604757657204897297Q,
1.00000000000000000086736173801199337283420551Q,
1.00000000000000000043368086900206504874970236Q,
1.00000000000000000021684043449972197850139102Q,
1.00000000000000000010842021724942414063012711Q,
1.00000000000000000005421010862456645410918700Q,
1.00000000000000000002710505431223468831954621Q,
1.00000000000000000001355252715610116458148523Q,
1.00000000000000000000677626357804518909799530Q,
1.00000000000000000000338813178902079681808570Q,
1.00000000000000000000169406589450979916540649Q,
1.00000000000000000000084703294725469983482470Q,
1.00000000000000000000042351647362728333478623Q,
1.00000000000000000000021175823681361947318442Q,
1.00000000000000000000010587911840680233852265Q,
1.00000000000000000000005293955920339870323814Q,
1.00000000000000000000002646977960169852961134Q,
1.00000000000000000000001323488980084899080309Q,
1.00000000000000000000000661744490042440406736Q,
1.00000000000000000000000330872245021217158895Q,
1.00000000000000000000000165436122510607564623Q,
1.00000000000000000000000082718061255303444037Q,
1.00000000000000000000000041359030627651609260Q,
1.00000000000000000000000020679515313825767044Q,
1.00000000000000000000000010339757656912870993Q,
1.00000000000000000000000005169878828456431320Q,
1.00000000000000000000000002584939414228214268Q,
1.00000000000000000000000001292469707114106670Q,
1.00000000000000000000000000646234853557053180Q,
1.00000000000000000000000000323117426778526539Q,
1.00000000000000000000000000161558713389263252Q,
1.00000000000000000000000000080779356694631620Q,
1.00000000000000000000000000040389678347315808Q,
1.00000000000000000000000000020194839173657903Q,
1.00000000000000000000000000010097419586828952Q,
1.00000000000000000000000000005048709793414476Q,
1.00000000000000000000000000002524354896707238Q,
1.00000000000000000000000000001262177448353619Q,
1.00000000000000000000000000000631088724176809Q,
1.00000000000000000000000000000315544362088405Q,
1.00000000000000000000000000000157772181044202Q,
1.00000000000000000000000000000078886090522101Q,
1.00000000000000000000000000000039443045261051Q,
1.00000000000000000000000000000019721522630525Q,
1.00000000000000000000000000000009860761315263Q,
1.00000000000000000000000000000004930380657631Q,
1.00000000000000000000000000000002465190328816Q,
1.00000000000000000000000000000001232595164408Q,
1.00000000000000000000000000000000616297582204Q,
1.00000000000000000000000000000000308148791102Q,
1.00000000000000000000000000000000154074395551Q,
1.00000000000000000000000000000000077037197775Q,
1.00000000000000000000000000000000038518598888Q,
1.00000000000000000000000000000000019259299444Q,
1.00000000000000000000000000000000009629649722Q,
1.00000000000000000000000000000000004814824861Q,
1.00000000000000000000000000000000002407412430Q,
1.00000000000000000000000000000000001203706215Q,
1.00000000000000000000000000000000000601853108Q,
1.00000000000000000000000000000000000300926554Q,
1.00000000000000000000000000000000000150463277Q,
1.00000000000000000000000000000000000075231638Q,
1.00000000000000000000000000000000000037615819Q,
1.00000000000000000000000000000000000018807910Q,
1.00000000000000000000000000000000000009403955Q,
1.00000000000000000000000000000000000004701977Q,
1.00000000000000000000000000000000000002350989Q,
1.00000000000000000000000000000000000001175494Q,
1.00000000000000000000000000000000000000587747Q,
