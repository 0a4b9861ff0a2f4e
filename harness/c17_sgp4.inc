    {"1 00005U 58002B   00179.78495062  .00000023  00000-0  28098-4 0  4753", "2 00005  34.2682 348.7242 1859667 331.7664  19.3264 10.82419157413667",
     {{0, {7022.46529266, -1400.08296755, 0.03995155}, {1.893841015, 6.405893759, 4.534807250}},
      {120, {3440.26049598, -5392.71604108, -3130.05162672}, {6.779784214, 3.219442975, 3.073934700}},
      {360, {-7154.03120202, -3783.17682504, -3536.19412294}, {4.741887409, -4.151817765, -2.093935425}},
      {720, {-7134.59340119, 6531.68641334, 3260.27186483}, {-4.113793027, -2.911922039, -2.557327851}},
      {1440, {-938.55923943, -6268.18748831, -4294.02924751}, {7.536105209, -0.427127707, 0.989878080}},
      {-400, {6901.18172345, -1761.92420113, -329.76158717}, {2.376149083, 6.296039770, 4.514037475}},
      {4320, {-9060.47373569, 4658.70952502, 813.68673153}, {-2.232832783, -4.110453490, -3.157345433}},
      {14400, {-2275.83598275, 8449.24670057, 3243.89465514}, {-5.777535749, 0.516851714, -2.370717774}},
      }},
    {"1 06251U 62025E   06176.82412014  .00008885  00000-0  12808-3 0  3985", "2 06251  58.0579  54.0425 0030035 139.1568 221.1854 15.56387291  6774",
     {{0, {3988.31022699, 5498.96657235, 0.90055879}, {-3.290032738, 2.357652820, 6.496623475}},
      {120, {-3935.69800083, 409.10980837, 5471.33577327}, {-3.374784183, -6.635211043, -1.942056221}},
      {360, {4993.62642836, 2890.54969900, -3600.40145627}, {0.347333429, 5.707031557, 5.070699638}},
      {720, {3692.60030028, -976.24265255, -5623.36447493}, {3.897257243, 6.415554948, 1.429112190}},
      {1440, {-2777.14682335, -5663.16031708, -2462.54889123}, {4.915493146, 0.123328992, -5.896495091}},
      {-400, {946.82741830, -4292.79765817, -5170.66057415}, {5.386762153, 4.616017039, -2.876505740}},
      {4320, {946.92606156, -3781.66054168, -5557.69170888}, {6.254399272, 4.057838682, -1.722414219}},
      {14400, {-1600.11063882, -3765.71011312, -5409.61112835}, {7.324976249, 0.056248206, -2.235442999}},
      }},
    {"1 28057U 03049A   06177.78615833  .00000060  00000-0  35940-4 0  1836", "2 28057  98.4283 247.6961 0000884  88.1964 271.9322 14.35478080140550",
     {{0, {-2715.28237486, -6619.26436889, -0.01341443}, {-1.008587273, 0.422782003, 7.385272942}},
      {120, {-1816.87920942, -1835.78762132, 6661.07926465}, {2.325140071, 6.655669329, 2.463394512}},
      {360, {2801.25607157, 5455.03931333, -3692.12865694}, {-0.595095864, -3.951923117, -6.298799125}},
      {720, {-2090.79884266, -2723.22832193, 6266.13356576}, {1.992640665, 6.337529519, 3.411803080}},
      {1440, {688.16056594, 4124.87618964, 5794.55994449}, {2.810973665, 5.479585563, -4.224866316}},
      {-400, {-2824.68574587, -6539.27639050, 659.90570149}, {-0.734655489, 1.069132567, 7.352972941}},
      {4320, {-2543.09202511, -6454.42057582, 1740.21562107}, {-0.387489085, 2.093145283, 7.157752750}},
      {14400, {1299.10662958, 6871.12798200, 1505.33886728}, {1.389742937, 1.327855562, -7.215293342}},
      }},
    {"1 08195U 75081A   06176.33215444  .00000099  00000-0  11873-3 0   813", "2 08195  64.1586 279.0717 6877146 264.7651  20.2257  2.00491383225656",
     {{0, {2349.89483350, -14785.93811562, 0.02119378}, {2.721488096, -3.256811655, 4.498416672}},
      {120, {15223.91713658, -17852.95881713, 25280.39558224}, {1.079041732, 0.875187372, 2.485682813}},
      {360, {19089.29762968, 3107.89495018, 39958.14661370}, {-0.410308034, 1.640332277, -0.306873818}},
      {720, {2622.13222207, -15125.15464924, 474.51048398}, {2.688287199, -3.078426664, 4.494979530}},
      {1440, {2890.80638268, -15446.43952300, 948.77010176}, {2.654407490, -2.909344895, 4.486437362}},
      {-400, {19845.12798902, -1004.30461262, 40162.88174485}, {-0.193364785, 1.651782002, 0.142891663}},
      {4320, {3928.67447396, -16569.56876077, 2834.70724886}, {2.516241619, -2.315000880, 4.414500571}},
      {14400, {7085.20308534, -18974.60757441, 9076.57741205}, {2.070801987, -0.942497534, 3.967169076}},
      }},
    {"1 11801U          80230.29629788  .01431103  00000-0  14311-1       8", "2 11801  46.7916 230.4354 7318036  47.4722  10.4117  2.28537848     6",
     {{0, {7473.37102491, 428.94748312, 5828.74846783}, {5.107155391, 6.444680305, -0.186133297}},
      {120, {13433.32206997, 28200.97792854, -8121.65089654}, {-0.655698297, 2.045815046, -1.924291446}},
      {360, {-3305.22148694, 32410.84323331, -24697.16974954}, {-1.301137319, -1.151315600, -0.283335823}},
      {720, {14271.29083858, 24110.44309009, -4725.76320143}, {-0.320504528, 2.679841539, -2.084054355}},
      {1440, {9787.87836256, 33753.32249667, -15030.79874625}, {-1.094251553, 0.923589906, -1.522311008}},
      {-400, {6794.88575808, 35823.29275614, -18660.00024900}, {-1.217705251, 0.346333542, -1.233003135}},
      {4320, {-2109.54494790, -5903.08792244, 2369.81575478}, {8.165632810, 1.060558896, 5.867808562}},
      {14400, {13301.05453446, 11912.42067288, 1782.53128442}, {1.147161464, 4.479554342, -2.334858715}},
      }},
    {"1 88888U          80275.98708465  .00073094  13844-3  66816-4 0    8 ", "2 88888  72.8435 115.9689 0086731  52.6988 110.5714 16.05824518  105 ",
     {{0, {2328.96975262, -5995.22051338, 1719.97297192}, {2.912073281, -0.983417956, -7.090816210}},
      {120, {1020.69234558, 2286.56260634, -6191.55565927}, {-3.746543902, 6.467532721, 1.827985678}},
      {360, {2456.10706533, -6071.93855503, 1222.89768554}, {2.679390040, -0.448290811, -7.228792155}},
      {720, {2567.56229695, -6112.50383922, 713.96374435}, {2.440245751, 0.098109002, -7.319959258}},
      {1440, {2742.55398832, -6079.67009123, -326.39012649}, {1.948497651, 1.211072678, -7.356193131}},
      {-400, {-2877.92611977, 5939.43327406, -308.03174788}, {-2.191679814, -0.747417400, 7.436038767}},
      {4320, {2819.16696271, -4342.85827752, -4249.09709326}, {0.008861961, 5.366169292, -5.489839278}},
      {14400, {-619.93486359, 6277.02528430, 1867.39268717}, {-2.182667061, -2.359240288, 7.127589801}},
      }},
    {"1 20001U 91001A   06177.12345678  .00000000  00000-0  00000-0 0  9005", "2 20001   0.0433 100.5000 0002000 240.1000  10.3000  1.00271000 10007",
     {{0, {41627.62533494, -6654.63279523, -29.65607785}, {0.485569274, 3.036734666, 0.000576867}},
      {120, {39355.23546509, 15115.12175427, -22.07480643}, {-1.102183071, 2.870868066, 0.001587034}},
      {360, {6463.96308095, 41667.57879815, 7.59117965}, {-3.038160450, 0.471923242, 0.002237099}},
      {720, {-41698.58087362, 6305.30459889, 31.68382458}, {-0.459500494, -3.039574415, -0.000527569}},
      {1440, {41735.80366086, -5937.70053673, -33.59276149}, {0.433280890, 3.044638297, 0.000476178}},
      {-400, {-13993.56022969, -39774.62124013, -3.16575944}, {2.900642233, -1.019858681, -0.002152401}},
      {4320, {41915.30004250, -4496.92399758, -39.99131705}, {0.328198239, 3.057756872, 0.000275597}},
      {14400, {42150.78741082, 606.80193030, -50.65443611}, {-0.044055444, 3.075018000, 0.000461962}},
      }},
    {"1 20002U 91001A   06177.12345678  .00000000  00000-0  00000-0 0  9005", "2 20002  13.5000  20.5000 0312000  70.1000 310.3000  1.00380000 10007",
     {{0, {32625.45262300, 25160.73327818, 2916.19891153}, {-1.966611352, 2.343704651, 0.693201096}},
      {120, {14438.23600989, 37567.01993577, 7240.43991086}, {-2.964435507, 1.009870279, 0.476977772}},
      {360, {-28045.95067654, 28780.97095402, 8840.38472158}, {-2.333956561, -2.095568851, -0.275180600}},
      {720, {-30984.94856514, -29573.71227928, -4047.89551689}, {2.023753600, -2.133165401, -0.650624520}},
      {1440, {31971.93910670, 25921.56810134, 3142.87722603}, {-2.026519173, 2.296238361, 0.687566685}},
      {-400, {20440.08576921, -36825.97543977, -10010.64199032}, {2.604644142, 1.469050224, 0.111337629}},
      {4320, {30607.80127514, 27394.23036169, 3590.57156644}, {-2.142809054, 2.197005047, 0.674960717}},
      {14400, {25278.34154506, 31984.98812364, 5084.28899346}, {-2.509039674, 1.807562907, 0.617900294}},
      }},
    {"1 20003U 91001A   06177.12345678  .00000000  00000-0  10000-3 0  9005", "2 20003  62.9000  20.5000 7432000 270.1000   5.3000  2.00620000 10007",
     {{0, {6458.33843525, -130.29873426, -4665.28046578}, {6.906394651, 4.714267934, 3.888587150}},
      {120, {11565.88353686, 17603.60726142, 24268.18993729}, {-1.059617177, 1.097407806, 2.733127718}},
      {360, {-8409.06915782, 19365.36850243, 41172.05129752}, {-1.368291814, -0.576381024, -0.118134475}},
      {720, {7331.66276671, 485.06920098, -4118.40696366}, {6.248447929, 4.688691851, 4.314545418}},
      {1440, {8121.57078150, 1093.24137462, -3522.01225553}, {5.625420042, 4.616600774, 4.627924989}},
      {-400, {-4873.88096075, 20564.69650857, 40939.39955412}, {-1.435515096, -0.374287039, 0.302023607}},
      {4320, {10566.89832327, 3380.62640938, -870.66275349}, {3.624297128, 4.125753761, 5.145570596}},
      {14400, {14051.26516833, 9380.18900682, 8436.31055349}, {0.582906527, 2.619686535, 4.472559858}},
      }},
    {"1 20004U 91001A   12077.12345678  .00000000  00000-0  10000-3 0  9005", "2 20004  63.9000 120.5000 6632000 280.1000   9.3000  2.00550000 10007",
     {{0, {-3133.53417426, 9358.41022565, -4191.03597140}, {-4.852251863, 3.675211251, 4.722172605}},
      {120, {-17915.17989956, 6228.47918164, 25040.98841802}, {-0.513085567, -1.713480648, 2.677785576}},
      {360, {-11374.19283231, -17968.47210573, 38608.94253047}, {1.052002068, -1.317794081, -0.484996654}},
      {720, {-3696.34262394, 9778.39975085, -3619.35612830}, {-4.723797269, 3.327352209, 4.865933761}},
      {1440, {-4242.46545351, 10158.08292734, -3033.09010415}, {-4.588532771, 2.998072953, 4.977224460}},
      {-400, {-13829.91481019, -14416.54549453, 39257.57996151}, {0.905789820, -1.506451326, -0.029300831}},
      {4320, {-6253.36004164, 11321.36208113, -607.28751603}, {-4.029482051, 1.875629623, 5.178300755}},
      {14400, {-11374.13263895, 12484.71468973, 7632.34432994}, {-2.485733458, -0.251006750, 4.665520594}},
      }},
    {"1 20005U 91001A   12077.12345678  .00000000  00000-0  10000-3 0  9005", "2 20005  46.9000 220.5000 5532000  80.1000  59.3000  2.01550000 10007",
     {{0, {13552.82284126, 21562.96869835, -8131.11186314}, {-1.226134705, 2.362404066, -2.770959046}},
      {120, {937.62295255, 29573.10508664, -23392.69540577}, {-1.972596784, 0.130009952, -1.473370216}},
      {360, {-22456.50247164, 13888.40553067, -26856.38031753}, {-0.891129834, -2.052037452, 1.051232723}},
      {720, {13132.94542607, 22316.51807830, -9058.54638039}, {-1.315806377, 2.215251830, -2.713888984}},
      {1440, {12684.61525864, 23021.92876852, -9966.90571640}, {-1.396357820, 2.074231439, -2.655198382}},
      {-400, {-19448.81005522, 19091.82345751, -29006.41159029}, {-1.284002810, -1.745273890, 0.527303089}},
      {4320, {10659.75304616, 25400.49992646, -13400.67915913}, {-1.645046299, 1.564366664, -2.411215248}},
      {14400, {1976.50981469, 29283.07204339, -22822.35942171}, {-1.980012473, 0.248962856, -1.550024649}},
      }},
    {"1 20006U 91001A   18277.62345678  .00000000  00000-0  10000-3 0  9005", "2 20006  55.1000 320.5000 0102000  10.1000 159.3000  2.00560000 10007",
     {{0, {-18640.73227790, 18876.85282796, 3893.78335483}, {-1.908641293, -1.225435204, -3.095193838}},
      {120, {-20940.07530367, 2312.02422140, -16526.65004578}, {1.330231824, -2.958337944, -2.060153470}},
      {360, {18202.53692864, -18577.75983012, -3955.90263168}, {1.942163293, 1.252109082, 3.155388381}},
      {720, {-18864.02200719, 18731.08157695, 3516.04008144}, {-1.861854625, -1.272189036, -3.104503645}},
      {1440, {-19081.65340964, 18579.69094205, 3137.16161089}, {-1.814537705, -1.318590612, -3.112853008}},
      {-400, {12174.09209720, -20382.36869701, -11458.42813690}, {2.788077294, 0.167905263, 2.726249305}},
      {4320, {-19894.33251790, 17918.81901587, 1612.24856977}, {-1.620191493, -1.500412345, -3.136624246}},
      {14400, {-21963.41671840, 14953.83816951, -3742.14830068}, {-0.887793417, -2.077004649, -3.098589021}},
      }},
    {"1 20007U 91001A   18277.62345678  .00000000  00000-0  10000-3 0  9005", "2 20007   7.1000 320.5000 7202000 170.1000 259.3000  2.25560000 10007",
     {{0, {31793.18128798, -17529.70338145, 830.95626778}, {-0.380172821, 2.353661264, 0.195510758}},
      {120, {18990.15927028, 2701.27441660, 1758.58925388}, {-4.004870766, 3.019098097, -0.027205287}},
      {360, {12966.17271349, -34052.20247216, -2230.82966855}, {2.263445964, -0.686994574, 0.113403450}},
      {720, {25978.97100904, -4260.39331330, 1651.45323812}, {-2.242897551, 2.991492468, 0.108056191}},
      {1440, {3581.13266824, 8238.74904360, 1068.96069645}, {-8.439694600, -0.386317898, -0.707965453}},
      {-400, {-5458.73175261, -18476.50850926, -2202.59140523}, {2.398169891, -4.367341810, -0.229962130}},
      {4320, {27543.72385555, -31972.89994523, -784.00853338}, {1.281177822, 0.988918387, 0.196464612}},
      {14400, {14354.55400003, -33024.61813907, -1757.62697040}, {2.338492872, -0.627492191, 0.142066481}},
      }},
    {"1 20008U 91001A   18001.62345678  .00000000  00000-0  50000-4 0  9005", "2 20008 124.8000 200.5000 3502000 200.1000  39.3000  4.75560000 10007",
     {{0, {1411.58999355, -6762.61223511, -9827.46267099}, {-5.498672958, -2.869111304, -1.096928907}},
      {120, {-19075.85215952, -2721.94067919, 5957.15666034}, {0.572137693, 2.243262697, 2.735728258}},
      {360, {-14424.70752400, -9216.44776617, -5116.39072046}, {-3.094069220, 0.881698003, 2.754869062}},
      {720, {-19203.11600703, -3502.00648783, 5045.88810719}, {0.258425152, 2.194427640, 2.824234952}},
      {1440, {2253.74186056, 8121.00643859, 9764.66815357}, {4.929822152, -0.532514797, -3.244408451}},
      {-400, {-4631.20478601, 7656.94830877, 12650.86311027}, {4.763926152, 1.027370310, -1.002567800}},
      {4320, {-17710.31264037, -7631.34837057, -815.83596233}, {-1.674433073, 1.606897658, 3.038902619}},
      {14400, {-13440.43104891, 3413.31815091, 12424.59682594}, {3.090106920, 2.283581224, 1.169212939}},
      }},
    {"1 20009U 91001A   66001.62345678  .00000000  00000-0 -50000-4 0  9005", "2 20009  98.8000  20.5000 0502000 300.1000  39.3000 12.75560000 10007",
     {{0, {6561.26021041, 2806.74117714, -2138.20133686}, {2.619969050, -0.172351416, 6.973663338}},
      {120, {7086.69653112, 2507.96641620, 911.44173896}, {-0.140951522, -1.247106271, 7.226601846}},
      {360, {4849.53134571, 815.51981709, 6138.73017663}, {-4.773540023, -2.552235967, 4.528223938}},
      {720, {-2775.26047323, -2266.92646627, 7284.86585758}, {-5.959477550, -1.810875015, -2.798957581}},
      {1440, {-3361.38201032, -195.11865641, -6701.42357470}, {6.182302259, 2.882970140, -2.862916890}},
      {-400, {-5748.58482057, -2931.28384796, 4884.85049175}, {-4.124952831, -0.627508653, -5.438105110}},
      {4320, {2670.77824963, -145.44851183, 7556.71188944}, {-5.879073135, -2.856480413, 2.269305499}},
      {14400, {-5933.53567317, -3832.95645925, 3642.27441326}, {-3.084811859, -0.562849677, -6.242646061}},
      }},
    {"1 20010U 91001A   45200.22345678  .00000000  00000-0  30000-3 0  9005", "2 20010  51.6000  20.5000 0102000 300.1000  39.3000 15.95560000 10007",
     {{0, {6315.54042149, 863.83127198, -1768.35313795}, {0.941697471, 5.198090533, 5.731219811}},
      {120, {-2386.68227766, 3521.86770850, 5202.86573060}, {-6.874738235, -3.269465291, -0.900760952}},
      {360, {6276.88081409, 484.63095074, -2021.83961874}, {1.450019020, 5.212349047, 5.614942619}},
      {720, {6209.66061591, 114.40542074, -2261.81518995}, {1.942904450, 5.191287831, 5.487548648}},
      {1440, {5999.12203571, -591.22511946, -2701.05197395}, {2.873690424, 5.052978500, 5.206456047}},
      {-400, {-6156.65091791, -2629.49357450, -169.79445447}, {2.077704517, -4.312873904, -6.031572744}},
      {4320, {4495.31654614, -2783.89919003, -3949.13881504}, {5.692501858, 3.594716495, 3.953157026}},
      {14400, {426.86585671, -4671.18279401, -4661.59035160}, {7.028610113, -1.980037255, 2.698911852}},
      }},
