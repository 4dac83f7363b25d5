static const char *const MID_D[] = {
"2717361052126856e-338", "2823585165982724e-336", "8470755497948172e-336", "9587665000219186e-334", "4793832500109593e-333", "9297123568865314e-325", "8652358280259763e-319", "3718924417423089e-318",
"7437848834846178e-318", "2923275894546063e-314", "5846551789092126e-314", "2749718305738437e-297", "5499436611476874e-297", "2105127426909677e-291", "4210254853819354e-291", "8420509707638708e-291",
"7297662880581139e-286", "3409719593752201e-282", "6819439187504402e-282", "6135911659254281e-281", "2395101062535523e-278", "4790202125071046e-278", "9580404250142092e-278", "5106185698912191e-276",
"3048054635745255e-256", "6096109271490510e-256", "1219221854298102e-255", "2438443708596204e-255", "4876887417192408e-255", "9753774834384816e-255", "7877520826404379e-252", "5543191554242427e-243",
"9515785410964311e-242", "9232950611965195e-238", "1846590122393039e-237", "3693180244786078e-237", "7386360489572156e-237", "6948856876393403e-233", "7739510938420475e-226", "1547902187684095e-225",
"2167063062757733e-225", "3095804375368190e-225", "4334126125515466e-225", "6191608750736380e-225", "8668252251030932e-225", "1238321750147276e-224", "2476643500294552e-224", "4953287000589104e-224",
"9906574001178208e-224", "5949468929279641e-221", "2215901545757777e-211", "4431803091515554e-211", "8863606183031108e-211", "7757557079397773e-210", "9779858917693593e-207", "8806667272339853e-206",
"5751132353173707e-204", "9163942927285259e-202", "2406355597625261e-200", "4812711195250522e-200", "9625422390501044e-200", "6677953342384343e-189", "2784381844007111e-187", "5568763688014222e-187",
"5386554945329337e-184", "5358388970008797e-179", "2815014003355115e-178", "5630028006710230e-178", "1126005601342046e-177", "2252011202684092e-177", "4504022405368184e-177", "9008044810736368e-177",
"2523567903248961e-170", "5047135806497922e-170", "8742664259256327e-169", "3743626360493413e-165", "7487252720986826e-165", "4520991180415875e-162", "9041982360831750e-162", "1808396472166350e-161",
"3616792944332700e-161", "7233585888665400e-161", "1446717177733080e-160", "2893434355466160e-160", "5786868710932320e-160", "1157373742186464e-159", "2314747484372928e-159", "4629494968745856e-159",
"9258989937491712e-159", "9016776661943535e-158", "1803355332388707e-157", "3606710664777414e-157", "7213421329554828e-157", "2787073548579015e-149", "5574147097158030e-149", "1114829419431606e-148",
"2229658838863212e-148", "4459317677726424e-148", "8918635355452848e-148", "8439928496349319e-141", "5868000426176735e-140", "1173600085235347e-139", "2347200170470694e-139", "4694400340941388e-139",
"9388800681882776e-139", "6407347385461271e-138", "5128860556645181e-134", "3475993020241383e-133", "6951986040482766e-133", "2746742826706349e-132", "5493485653412698e-132", "4168238778696299e-130",
"8336477557392598e-130", "7497371084737385e-124", "1499474216947477e-123", "2998948433894954e-123", "5997896867789908e-123", "3372286673187969e-120", "6744573346375938e-120", "4559093100884257e-111",
"9118186201768514e-111", "5696647848853893e-108", "9555513697755563e-102", "2311989689387339e-97", "4623979378774678e-97", "9247958757549356e-97", "3294312317590731e-94", "6588624635181462e-94",
"4951435724645265e-90", "8252392874408775e-90", "9902871449290530e-90", "1650478574881755e-89", "1980574289858106e-89", "3300957149763510e-89", "3961148579716212e-89", "6601914299527020e-89",
"7922297159432424e-89", "1320382859905404e-88", "2640765719810808e-88", "5281531439621616e-88", "2840978519032327e-86", "5681957038064654e-86", "3721305106071689e-80", "7442610212143378e-80",
"7509477254318789e-79", "5557420538809359e-77", "5775274921417125e-75", "9625458202361875e-75", "1155054984283425e-74", "1925091640472375e-74", "2310109968566850e-74", "3850183280944750e-74",
"4620219937133700e-74", "7700366561889500e-74", "9240439874267400e-74", "1540073312377900e-73", "1848087974853480e-73", "3080146624755800e-73", "3696175949706960e-73", "6160293249511600e-73",
"7392351899413920e-73", "1232058649902320e-72", "1478470379882784e-72", "2464117299804640e-72", "2956940759765568e-72", "4928234599609280e-72", "5913881519531136e-72", "9856469199218560e-72",
"1971293839843712e-71", "3942587679687424e-71", "7885175359374848e-71", "5917471504240083e-63", "5929446727613771e-60", "4865841847892019e-57", "9731683695784038e-57", "3372948296445563e-54",
"6745896592891126e-54", "2466117547186101e-52", "4932235094372202e-52", "9864470188744404e-52", "7130235683793221e-50", "2378016066134295e-42", "4756032132268590e-42", "9512064264537180e-42",
"1902412852907436e-41", "3804825705814872e-41", "7609651411629744e-41", "9225816442749653e-40", "5497935665131539e-33", "2933586004318867e-32", "5867172008637734e-32", "2492395165176021e-24",
"4984790330352042e-24", "9969580660704084e-24", "1951348294374041e-23", "3902696588748082e-23", "7805393177496164e-23", "1731349986566336e-22", "3689857399914203e-22", "3462699973132672e-22",
"4995529008812781e-22", "7379714799828406e-22", "6925399946265344e-22", "9309585737280969e-22", "9991058017625562e-22", "1180831743187781e-21", "1657668901390906e-21", "1203354047827844e-21",
"1680191206030969e-21", "2361663486375562e-21", "2838500644578687e-21", "1929870937452563e-21", "2406708095655688e-21", "4246489814547999e-21", "4723326972751124e-21", "3859741874905126e-21",
"4336579033108251e-21", "8016142470892873e-21", "8492979629095998e-21", "7719483749810252e-21", "8196320908013377e-21", "1003997138766749e-20", "1099364570407374e-20", "1094086357327001e-20",
"1189453788967626e-20", "1531157119330373e-20", "1626524550970998e-20", "1615968124810252e-20", "1711335556450877e-20", "3062314238660746e-20", "3157681670301371e-20", "3136568817979879e-20",
"3231936249620504e-20", "6124628477321492e-20", "6219995908962117e-20", "6177770204319133e-20", "6273137635959758e-20", "1002377715223246e-19", "1021451201551371e-19", "1000338349229879e-19",
"1019411835558004e-19", "1222742490993367e-19", "1241815977321492e-19", "1237737245334758e-19", "1256810731662883e-19", "2445484981986734e-19", "2464558468314859e-19", "2456401004341391e-19",
"2475474490669516e-19", "4890969963973468e-19", "4910043450301593e-19", "4893728522354657e-19", "4912802008682782e-19", "9781939927946936e-19", "9801013414275061e-19", "9768383558381189e-19",
"9787457044709314e-19", "1003793450301593e-18", "1007608147567218e-18", "1002737311417157e-18", "1006552008682782e-18", "1954181138884436e-18", "1957995836150061e-18", "1955883558381189e-18",
"1959698255646814e-18", "3908362277768872e-18", "3912176975034497e-18", "3907952419496753e-18", "3911767116762378e-18", "7812909858272119e-18", "7816724555537744e-18", "7815904838993506e-18",
"7819719536259131e-18", "1000037082456372e-17", "1000800021909497e-17", "1000390163637378e-17", "1001153103090503e-17", "1562909858272119e-17", "1563672797725244e-17", "1562853081181006e-17",
"1563616020634131e-17", "3125056777091113e-17", "3125819716544238e-17", "3125706162362012e-17", "3126469101815137e-17", "6250113554182226e-17", "6250876493635351e-17", "6250649385270899e-17",
"6251412324724024e-17", "1000117812247363e-16", "1000270400137988e-16", "1000004258065137e-16", "1000156845955762e-16", "1250113554182226e-16", "1250266142072851e-16", "1250039033708399e-16",
"1250191621599024e-16", "2500074520473827e-16", "2500227108364452e-16", "2500078067416798e-16", "2500230655307423e-16", "5000149040947654e-16", "5000301628838279e-16", "5000003546942971e-16",
"5000156134833596e-16", "1000026970635154e-15", "1000057488213279e-15", "1000003546942971e-15", "1000034064521096e-15", "2000023423692183e-15", "2000053941270308e-15", "2000007093885942e-15",
"2000037611464067e-15", "4000016329806241e-15", "4000046847384366e-15", "4000014187771884e-15", "4000044705350009e-15", "8000002142034357e-15", "8000032659612482e-15", "8000028375543768e-15",
"8000058893121893e-15", "1000004122774991e-14", "1000010226290616e-14", "1000001980740634e-14", "1000008084256259e-14", "1600002142034357e-14", "1600008245549982e-14", "1600003961481268e-14",
"1600010064996893e-14", "3200004284068714e-14", "3200010387584339e-14", "3200001819446911e-14", "3200007922962536e-14", "6400002464621803e-14", "6400008568137428e-14", "6400003638893822e-14",
"6400009742409447e-14", "1000000621959339e-13", "1000001842662464e-13", "1000000598743786e-13", "1000001819446911e-13", "1280000023215553e-13", "1280001243918678e-13", "1280001197487572e-13",
"1280002418190697e-13", "2560000046431106e-13", "2560001267134231e-13", "2560001174272019e-13", "2560002394975144e-13", "5120000092862212e-13", "5120001313565337e-13", "5120001127840913e-13",
"5120002348544038e-13", "1000000046431106e-12", "1000000290571731e-12", "1000000197709519e-12", "1000000441850144e-12", "1024000092862212e-12", "1024000337002837e-12", "1024000151278413e-12",
"1024000395419038e-12", "2048000185724424e-12", "2048000429865049e-12", "2048000058416201e-12", "2048000302556826e-12", "4096000127308223e-12", "4096000371448848e-12", "4096000116832402e-12",
"4096000360973027e-12", "8192000010475821e-12", "8192000254616446e-12", "8192000233664804e-12", "8192000477805429e-12", "1000000029651973e-11", "1000000078480098e-11", "1000000019176152e-11",
"1000000068004277e-11", "1638400010475821e-11", "1638400059303946e-11", "1638400038352304e-11", "1638400087180429e-11", "3276800020951642e-11", "3276800069779767e-11", "3276800027876483e-11",
"3276800076704608e-11", "6553600041903284e-11", "6553600090731409e-11", "6553600006924841e-11", "6553600055752966e-11", "1000000001420392e-10", "1000000011186017e-10", "1000000008345233e-10",
"1000000018110858e-10", "1310720002840784e-10", "1310720012606409e-10", "1310720006924841e-10", "1310720016690466e-10", "2621440005681568e-10", "2621440015447193e-10", "2621440004084057e-10",
"2621440013849682e-10", "5242880001597511e-10", "5242880011363136e-10", "5242880008168114e-10", "5242880017933739e-10", "1000000001775318e-9", "1000000003728443e-9", "1000000000177807e-9",
"1000000002130932e-9", "1048576001597511e-9", "1048576003550636e-9", "1048576000355614e-9", "1048576002308739e-9", "2097152001241897e-9", "2097152003195022e-9", "2097152000711228e-9",
"2097152002664353e-9", "4194304000530669e-9", "4194304002483794e-9", "4194304001422456e-9", "4194304003375581e-9", "8388608001061338e-9", "8388608003014463e-9", "8388608000891787e-9",
"8388608002844912e-9", "1000000000140044e-8", "1000000000530669e-8", "1000000000250581e-8", "1000000000641206e-8", "1677721600280088e-8", "1677721600670713e-8", "1677721600110537e-8",
"1677721600501162e-8", "3355443200169551e-8", "3355443200560176e-8", "3355443200221074e-8", "3355443200611699e-8", "6710886400339102e-8", "6710886400729727e-8", "6710886400051523e-8",
"6710886400442148e-8", "1000000000013301e-7", "1000000000091426e-7", "1000000000064824e-7", "1000000000142949e-7", "1342177280026602e-7", "1342177280104727e-7", "1342177280051523e-7",
"1342177280129648e-7", "2684354560053204e-7", "2684354560131329e-7", "2684354560024921e-7", "2684354560103046e-7", "5368709120028283e-7", "5368709120106408e-7", "5368709120049842e-7",
"5368709120127967e-7", "1000000000006329e-6", "1000000000021954e-6", "1000000000009296e-6", "1000000000024921e-6", "1073741824012658e-6", "1073741824028283e-6", "1073741824002967e-6",
"1073741824018592e-6", "2147483648009691e-6", "2147483648025316e-6", "2147483648005934e-6", "2147483648021559e-6", "4294967296003757e-6", "4294967296019382e-6", "4294967296011868e-6",
"4294967296027493e-6", "8589934592007514e-6", "8589934592023139e-6", "8589934592008111e-6", "8589934592023736e-6", "1000000000000632e-5", "1000000000003757e-5", "1000000000002493e-5",
"1000000000005618e-5", "1717986918401264e-5", "1717986918404389e-5", "1717986918401861e-5", "1717986918404986e-5", "3435973836802528e-5", "3435973836805653e-5", "3435973836800597e-5",
"3435973836803722e-5", "6871947673601931e-5", "6871947673605056e-5", "6871947673601194e-5", "6871947673604319e-5", "1000000000000028e-4", "1000000000000653e-4", "1000000000000597e-4",
"1000000000001222e-4", "1374389534720056e-4", "1374389534720681e-4", "1374389534720569e-4", "1374389534721194e-4", "2748779069440112e-4", "2748779069440737e-4", "2748779069440513e-4",
"2748779069441138e-4", "5497558138880224e-4", "5497558138880849e-4", "5497558138880401e-4", "5497558138881026e-4", "1000000000000112e-3", "1000000000000237e-3", "1000000000000013e-3",
"1000000000000138e-3", "1099511627776099e-3", "1099511627776224e-3", "1099511627776026e-3", "1099511627776151e-3", "2199023255552073e-3", "2199023255552198e-3", "2199023255552052e-3",
"2199023255552177e-3", "4398046511104021e-3", "4398046511104146e-3", "4398046511104104e-3", "4398046511104229e-3", "8796093022208042e-3", "8796093022208167e-3", "8796093022208083e-3",
"8796093022208208e-3", "1000000000000021e-2", "1000000000000046e-2", "1000000000000004e-2", "1000000000000029e-2", "1759218604441617e-2", "1759218604441642e-2", "1759218604441608e-2",
"1759218604441633e-2", "3518437208883209e-2", "3518437208883234e-2", "3518437208883216e-2", "3518437208883241e-2", "7036874417766418e-2", "7036874417766443e-2", "7036874417766407e-2",
"7036874417766432e-2", "1000000000000004e-1", "1000000000000009e-1", "1000000000000001e-1", "1000000000000006e-1", "1407374883553283e-1", "1407374883553288e-1", "1407374883553282e-1",
"1407374883553287e-1", "2814749767106561e-1", "2814749767106566e-1", "2814749767106564e-1", "2814749767106569e-1", "5629499534213122e-1", "5629499534213127e-1", "5629499534213123e-1",
"5629499534213128e-1", "9007199254740993e0", "9007199254740995e0", "9007199254740993e0", "9007199254740995e0", "1801439850948199e1", "1801439850948201e1", "1801439850948199e1",
"1801439850948201e1", "3602879701896398e1", "3602879701896402e1", "3602879701896398e1", "3602879701896402e1", "7205759403792796e1", "7205759403792804e1", "7205759403792796e1",
"7205759403792804e1", "1000000000000002e2", "1000000000000006e2", "1000000000000002e2", "1000000000000006e2", "1441151880758564e2", "1441151880758572e2", "1441151880758564e2",
"1441151880758572e2", "2882303761517128e2", "2882303761517144e2", "2882303761517128e2", "2882303761517144e2", "5764607523034256e2", "5764607523034288e2", "5764607523034256e2",
"5764607523034288e2", "1000000000000008e3", "1000000000000024e3", "1000000000000008e3", "1000000000000024e3", "1152921504606864e3", "1152921504606896e3", "1152921504606864e3",
"1152921504606896e3", "2305843009213728e3", "2305843009213792e3", "2305843009213728e3", "2305843009213792e3", "4611686018427456e3", "4611686018427584e3", "4611686018427456e3",
"4611686018427584e3", "9223372036854912e3", "9223372036855168e3", "9223372036854912e3", "9223372036855168e3", "1000000000000064e4", "1000000000000192e4", "1000000000000064e4",
"1000000000000192e4", "1844674407371136e4", "1844674407371392e4", "1844674407371136e4", "1844674407371392e4", "3689348814742272e4", "3689348814742784e4", "3689348814742272e4",
"3689348814742784e4", "7378697629484544e4", "7378697629485568e4", "7378697629484544e4", "7378697629485568e4", "1000000000000256e5", "1000000000000768e5", "1000000000000256e5",
"1000000000000768e5", "1475739525897728e5", "1475739525898752e5", "1475739525897728e5", "1475739525898752e5", "2951479051795456e5", "2951479051797504e5", "2951479051795456e5",
"2951479051797504e5", "5902958103590912e5", "5902958103595008e5", "5902958103590912e5", "5902958103595008e5", "1000000000001024e6", "1000000000003072e6", "1000000000001024e6",
"1000000000003072e6", "1180591620720640e6", "1180591620724736e6", "1180591620720640e6", "1180591620724736e6", "2361183241441280e6", "2361183241449472e6", "2361183241441280e6",
"2361183241449472e6", "4722366482882560e6", "4722366482898944e6", "4722366482882560e6", "4722366482898944e6", "9444732965765120e6", "9444732965797888e6", "9444732965765120e6",
"9444732965797888e6", "1000000000008192e7", "1000000000024576e7", "1000000000008192e7", "1000000000024576e7", "1888946593153024e7", "1888946593185792e7", "1888946593153024e7",
"1888946593185792e7", "3777893186306048e7", "3777893186371584e7", "3777893186306048e7", "3777893186371584e7", "7555786372612096e7", "7555786372743168e7", "7555786372612096e7",
"7555786372743168e7", "1000000000000000e8", "1000000000065536e8", "1000000000000000e8", "1000000000065536e8", "1511157274574848e8", "1511157274705920e8", "1511157274574848e8",
"1511157274705920e8", "3022314549149696e8", "3022314549411840e8", "3022314549149696e8", "3022314549411840e8", "6044629098299392e8", "6044629098823680e8", "6044629098299392e8",
"6044629098823680e8", "1000000000229376e9", "1000000000491520e9", "1000000000229376e9", "1000000000491520e9", "1208925819764736e9", "1208925820289024e9", "1208925819764736e9",
"1208925820289024e9", "2417851639529472e9", "2417851640578048e9", "2417851639529472e9", "2417851640578048e9", "4835703279058944e9", "4835703281156096e9", "4835703279058944e9",
"4835703281156096e9", "9671406558117888e9", "9671406562312192e9", "9671406558117888e9", "9671406562312192e9", "1000000000622592e10", "1000000002719744e10", "1000000000622592e10",
"1000000002719744e10", "1934281314140160e10", "1934281318334464e10", "1934281314140160e10", "1934281318334464e10", "3868562628280320e10", "3868562636668928e10", "3868562628280320e10",
"3868562636668928e10", "7737125256560640e10", "7737125273337856e10", "7737125256560640e10", "7737125273337856e10", "1000000007962624e11", "1000000016351232e11", "1000000007962624e11",
"1000000016351232e11", "1547425051312128e11", "1547425068089344e11", "1547425051312128e11", "1547425068089344e11", "3094850102624256e11", "3094850136178688e11", "3094850102624256e11",
"3094850136178688e11", "6189700205248512e11", "6189700272357376e11", "6189700205248512e11", "6189700272357376e11", "1000000003768320e12", "1000000037322752e12", "1000000003768320e12",
"1000000037322752e12", "1237940067893248e12", "1237940135002112e12", "1237940067893248e12", "1237940135002112e12", "2475880135786496e12", "2475880270004224e12", "2475880135786496e12",
"2475880270004224e12", "4951760271572992e12", "4951760540008448e12", "4951760271572992e12", "4951760540008448e12", "9903520543145984e12", "9903521080016896e12", "9903520543145984e12",
"9903521080016896e12", "1000000054099968e13", "1000000322535424e13", "1000000054099968e13", "1000000322535424e13", "1980704430751744e13", "1980704967622656e13", "1980704430751744e13",
"1980704967622656e13", "3961408861503488e13", "3961409935245312e13", "3961408861503488e13", "3961409935245312e13", "7922817723006976e13", "7922819870490624e13", "7922817723006976e13",
"7922819870490624e13", "1000000993624064e14", "1000002067365888e14", "1000000993624064e14", "1000002067365888e14", "1584564833091584e14", "1584566980575232e14", "1584564833091584e14",
"1584566980575232e14", "3169129666183168e14", "3169133961150464e14", "3169129666183168e14", "3169133961150464e14", "6338259332366336e14", "6338267922300928e14", "6338259332366336e14",
"6338267922300928e14", "1000003677978624e15", "1000007972945920e15", "1000003677978624e15", "1000007972945920e15", "1267655302447104e15", "1267663892381696e15", "1267655302447104e15",
"1267663892381696e15", "2535310604894208e15", "2535327784763392e15", "2535310604894208e15", "2535327784763392e15", "5070621209788416e15", "5070655569526784e15", "5070621209788416e15",
"5070655569526784e15", "1000014415396864e16", "1000031595266048e16", "1000014415396864e16", "1000031595266048e16", "1014144857800704e16", "1014179217539072e16", "1014144857800704e16",
"1014179217539072e16", "2028289715601408e16", "2028358435078144e16", "2028289715601408e16", "2028358435078144e16", "4056579431202816e16", "4056716870156288e16", "4056579431202816e16",
"4056716870156288e16", "8113158862405632e16", "8113433740312576e16", "8113158862405632e16", "8113433740312576e16", "1000074544939008e17", "1000211983892480e17", "1000074544939008e17",
"1000211983892480e17", "1622741723643904e17", "1623016601550848e17", "1622741723643904e17", "1623016601550848e17", "3245483447287808e17", "3246033203101696e17", "3245483447287808e17",
"3246033203101696e17", "6490966894575616e17", "6492066406203392e17", "6490966894575616e17", "6492066406203392e17", "1000280703369216e18", "1000830459183104e18", "1000280703369216e18",
"1000830459183104e18", "1299072988217344e18", "1300172499845120e18", "1299072988217344e18", "1300172499845120e18", "2598145976434688e18", "2600344999690240e18", "2598145976434688e18",
"2600344999690240e18", "5196291952869376e18", "5200689999380480e18", "5196291952869376e18", "5200689999380480e18", "1001655092903936e19", "1003854116159488e19", "1001655092903936e19",
"1003854116159488e19", "1040137999876096e19", "1044536046387200e19", "1040137999876096e19", "1044536046387200e19", "2080275999752192e19", "2089072092774400e19", "2080275999752192e19",
"2089072092774400e19", "4160551999504384e19", "4178144185548800e19", "4160551999504384e19", "4178144185548800e19", "8321103999008768e19", "8356288371097600e19", "8321103999008768e19",
"8356288371097600e19", "1011550697553920e20", "1029142883598336e20", "1011550697553920e20", "1029142883598336e20", "1671257674219520e20", "1706442046308352e20", "1671257674219520e20",
"1706442046308352e20", "3342515348439040e20", "3412884092616704e20", "3342515348439040e20", "3412884092616704e20", "6685030696878080e20", "6825768185233408e20", "6685030696878080e20",
"6825768185233408e20", "1020346790576128e21", "1090715534753792e21", "1020346790576128e21", "1090715534753792e21", "1337006139375616e21", "1477743627730944e21", "1337006139375616e21",
"1477743627730944e21", "2674012278751232e21", "2955487255461888e21", "2674012278751232e21", "2955487255461888e21", "5348024557502464e21", "5910974510923776e21", "5348024557502464e21",
"5910974510923776e21", "1407374883553280e22", "1970324836974592e22", "1407374883553280e22", "1970324836974592e22", "2814749767106560e22", "3940649673949184e22", "2814749767106560e22",
"3940649673949184e22", "5629499534213120e22", "7881299347898368e22", "5629499534213120e22", "7881299347898368e22", "1125899906842624e23", "1125899906842624e23", "2251799813685248e23",
"2251799813685248e23", "4503599627370496e23", "4503599627370496e23", "9007199254740992e23", "9007199254740992e23", "7190320996344367e26", "8034137530808823e28", "3399192475886301e30",
"6798384951772602e30", "8029645233209945e40", "1605929046641989e41", "3211858093283978e41", "6423716186567956e41", "2651576518443653e44", "5303153036887306e44", "4285935458457607e45",
"8571870916915214e45", "6407277910970479e50", "7793560217139653e51", "3776763733298609e52", "7553527466597218e52", "4423291694721855e55", "8846583389443710e55", "1769316677888742e56",
"3538633355777484e56", "7077266711554968e56", "2160611446231911e58", "4321222892463822e58", "8642445784927644e58", "3482974734743573e76", "6965949469487146e76", "6901257826767179e81",
"2825769263311679e88", "5651538526623358e88", "6582076902422125e99", "1316415380484425e100", "2632830760968850e100", "5265661521937700e100", "1053132304387540e101", "2106264608775080e101",
"4212529217550160e101", "8425058435100320e101", "1685011687020064e102", "3370023374040128e102", "6740046748080256e102", "2140191156335601e103", "4280382312671202e103", "8560764625342404e103",
"9236691736094001e105", "8521893764078839e107", "4459606684033441e109", "8919213368066882e109", "7144238229304611e113", "7199709155596939e118", "4499029632233837e121", "8998059264467674e121",
"7727604886655707e138", "2814808490459911e145", "5629616980919822e145", "3335268166877591e148", "6670536333755182e148", "7054072678000793e154", "6353227084707473e155", "5792550610072817e157",
"9903735572932843e158", "4879389443657639e163", "9758778887315278e163", "6317620627849035e167", "1263524125569807e168", "2527048251139614e168", "5054096502279228e168", "3089601558346997e169",
"6179203116693994e169", "2438105713496899e172", "4876211426993798e172", "9752422853987596e172", "5188619067890145e173", "1037723813578029e174", "2075447627156058e174", "4150895254312116e174",
"8301790508624232e174", "7759556933188605e175", "1551911386637721e176", "3103822773275442e176", "6207645546550884e176", "3289553254398595e177", "6579106508797190e177", "1315821301759438e178",
"2631642603518876e178", "5263285207037752e178", "3458635924736763e185", "6917271849473526e185", "9692059951833977e188", "3977921986933363e193", "7955843973866726e193", "4027082163282595e201",
"8054164326565190e201", "1610832865313038e202", "3221665730626076e202", "6443331461252152e202", "4808384222266737e205", "9616768444533474e205", "4278822588984689e209", "8557645177969378e209",
"9324754620109615e212", "1864950924021923e213", "3729901848043846e213", "7459803696087692e213", "7845101975422727e218", "3505568753708435e220", "7011137507416870e220", "1402227501483374e221",
"2804455002966748e221", "5608910005933496e221", "5777474242431523e223", "8012141636987797e229", "3773057430100257e230", "7546114860200514e230", "9165390530037485e232", "1833078106007497e233",
"3666156212014994e233", "7332312424029988e233", "4018987431738901e237", "8037974863477802e237", "2404900310103547e239", "4809800620207094e239", "9619601240414188e239", "4993984826803475e245",
"9987969653606950e245", "1997593930721390e246", "3995187861442780e246", "7990375722885560e246", "1598075144577112e247", "3196150289154224e247", "6392300578308448e247", "6651760900255937e250",
"9153328589189473e257", "8870461176410409e264", "3539481653469909e268", "7078963306939818e268", "7495143643934965e272", "1499028728786993e273", "2998057457573986e273", "5996114915147972e273",
"3430012655501279e274", "6860025311002558e274", "8562217174794665e274", "1712443434958933e275", "3424886869917866e275", "6849773739835732e275", "4763926483670773e280", "9527852967341546e280",
"4749736811475095e283", "9499473622950190e283", "1899894724590038e284", "3799789449180076e284", "7599578898360152e284", "9148689043566271e287", "3726357216333703e288", "7452714432667406e288",
"2100749087666719e293", "69910288886536386e-338", "91426847762922673e-337", "95876650002191860e-335", "28762995000657558e-334", "47938325001095930e-334", "46322539876888582e-332", "97750974221912874e-330",
"36404579055960342e-327", "56566656632692798e-326", "65863780201558112e-325", "32931890100779056e-324", "65863780201558112e-324", "78277088051970491e-323", "90393299382385387e-320", "42043939226778087e-316",
"84087878453556174e-316", "83865348210689515e-312", "16773069642137903e-311", "33546139284275806e-311", "67092278568551612e-311", "38103185705923139e-299", "76206371411846278e-299", "97338774138954421e-289",
"36488314402905695e-287", "72976628805811390e-287", "14595325761162278e-286", "29190651522324556e-286", "58381303044649112e-286", "44318436671280209e-283", "88636873342560418e-283", "57957315046289013e-282",
"32971143240792833e-279", "65942286481585666e-279", "25530928494560955e-277", "51061856989121910e-277", "10212371397824382e-276", "20424742795648764e-276", "40849485591297528e-276", "81698971182595056e-276",
"87321175067455367e-269", "42016827692595413e-257", "84033655385190826e-257", "35920718421104903e-256", "71841436842209806e-256", "47182622252364237e-253", "94365244504728474e-253", "90467735444557303e-253",
"54876922580442087e-248", "94080055902682397e-242", "67064241183914963e-231", "46661422509138417e-230", "93322845018276834e-230", "46192959696371591e-228", "92385919392743182e-228", "69705112365474009e-223",
"46183201060951391e-219", "92366402121902782e-219", "60420767461502269e-219", "55397538643944425e-213", "77556554101522195e-213", "11079507728788885e-212", "15511310820304439e-212", "22159015457577770e-212",
"31022621640608878e-212", "44318030915155540e-212", "62045243281217756e-212", "88636061830311080e-212", "17727212366062216e-211", "35454424732124432e-211", "70908849464248864e-211", "79551245826553305e-209",
"15910249165310661e-208", "31820498330621322e-208", "63640996661242644e-208", "24473618526312079e-207", "48947237052624158e-207", "97894474105248316e-207", "54639691059832043e-205", "73810132237077733e-205",
"66141955766179457e-204", "61279765430155767e-201", "42028920649153679e-200", "84057841298307358e-200", "44354322356809089e-197", "88708644713618178e-197", "57849995759362063e-194", "55347597072099743e-191",
"77305427432277771e-190", "59512762130028601e-187", "38008747013374283e-181", "76017494026748566e-181", "71659153503365177e-180", "34507416263568037e-175", "69014832527136074e-175", "41489164733416129e-170",
"82978329466832258e-170", "76206613715713747e-168", "93590659012335325e-167", "18718131802467065e-166", "37436263604934130e-166", "74872527209868260e-166", "14974505441973652e-165", "29949010883947304e-165",
"59898021767894608e-165", "58767043776702677e-163", "40683079055039177e-162", "81366158110078354e-162", "64409240769861689e-159", "95864787686864721e-146", "42199642481746595e-142", "59079499474445233e-142",
"84399284963493190e-142", "16879856992698638e-141", "33759713985397276e-141", "67519427970794552e-141", "27891713559220541e-140", "55783427118441082e-140", "55187136459156781e-137", "90357176549550681e-137",
"93170779756782193e-135", "46576138769621067e-130", "93152277539242134e-130", "90506231831231999e-129", "88389395264823891e-128", "33713554319482639e-124", "67427108638965278e-124", "51707244922852363e-122",
"92736157413624405e-120", "18547231482724881e-119", "37094462965449762e-119", "74188925930899524e-119", "58024491648852077e-117", "50370323150203271e-113", "82357807939768275e-96", "16471561587953655e-95",
"32943123175907310e-95", "65886246351814620e-95", "13177249270362924e-94", "26354498540725848e-94", "52708997081451696e-94", "67366467983121959e-92", "87963077255606295e-83", "17592615451121259e-82",
"35185230902242518e-82", "93032627651792225e-82", "70370461804485036e-82", "18606525530358445e-81", "37213051060716890e-81", "74426102121433780e-81", "14885220424286756e-80", "29770440848573512e-80",
"59540881697147024e-80", "25897608856571939e-77", "51795217713143878e-77", "30911878028269157e-68", "61823756056538314e-68", "98980439871403039e-64", "46950597137968181e-61", "93901194275936362e-61",
"77024470552699559e-54", "97040824225153581e-53", "98142236562014107e-51", "62303169290247211e-34", "95290783281036445e-33", "19058156656207289e-32", "38116313312414578e-32", "76232626624829156e-32",
"24334550515235111e-31", "48669101030470222e-31", "79461601703952979e-31", "97338202060940444e-31", "49635064114686541e-25", "99270128229373082e-25", "19939161321408168e-24", "39878322642816336e-24",
"99057289040539203e-24", "79756645285632672e-24", "15610786354992328e-23", "20152000510242047e-23", "31221572709984656e-23", "43142501665062781e-23", "28383072065405969e-23", "40304001020484094e-23",
"50522216464891187e-23", "62443145419969312e-23", "56766144130811938e-23", "68687073085890063e-23", "12375243808641187e-22", "14759429599656812e-22", "11466614101515063e-22", "13850799892530688e-22",
"19982116035251124e-22", "22366301826266749e-22", "20549042412014501e-22", "22933228203030126e-22", "39964232070502248e-22", "42348417861517873e-22", "38713899033013377e-22", "41098084824029002e-22",
"77544278349988871e-22", "79928464141004496e-22", "77427798066026754e-22", "79811983857042379e-22", "10400328261908498e-21", "10877165420111623e-21", "10103669540825877e-21", "10580506699029002e-21",
"15555447783582621e-21", "16032284941785746e-21", "15438967499620504e-21", "15915804657823629e-21", "30634058408962117e-21", "31110895567165242e-21", "30877934999241008e-21", "31354772157444133e-21",
"61268116817924234e-21", "61744953976127359e-21", "61279032840278891e-21", "61755869998482016e-21", "10034693174587117e-20", "10130060606227742e-20", "10087834901584758e-20", "10183202333225383e-20",
"12249256954642984e-20", "12344624386283609e-20", "12260172976997641e-20", "12355540408638266e-20", "24498513909285968e-20", "24593881340926593e-20", "24424978522354657e-20", "24520345953995282e-20",
"48901660386931311e-20", "48997027818571936e-20", "48849957044709314e-20", "48945324476349939e-20", "97707953342221997e-20", "97803320773862622e-20", "97699914089418628e-20", "97795281521059253e-20",
"10010821763884436e-19", "10029895250212561e-19", "10016338880646814e-19", "10035412366974939e-19", "19544806369565747e-19", "19563879855893872e-19", "19536767116762378e-19", "19555840603090503e-19",
"39070539252803369e-19", "39089612739131494e-19", "39073534233524756e-19", "39092607719852881e-19", "78141078505606738e-19", "78160151991934863e-19", "78127994980721387e-19", "78147068467049512e-19",
"10002546088740869e-18", "10006360786006494e-18", "10001726372196631e-18", "10005541069462256e-18", "15625819716544238e-18", "15629634413809863e-18", "15627994980721387e-18", "15631809677987012e-18",
"31251639433088476e-18", "31255454130354101e-18", "31252175264177149e-18", "31255989961442774e-18", "62503278866176952e-18", "62507093563442577e-18", "62500535831088673e-18", "62504350528354298e-18",
"10000723905744726e-17", "10001486845197851e-17", "10000496797380274e-17", "10001259736833399e-17", "12500227108364452e-17", "12500990047817577e-17", "12500535831088673e-17", "12501298770541798e-17",
"25000454216728904e-17", "25001217156182029e-17", "25000308722724221e-17", "25001071662177346e-17", "50000145494004683e-17", "50000908433457808e-17", "50000617445448442e-17", "50001380384901567e-17",
"10000145494004683e-16", "10000298081895308e-16", "10000007093885942e-16", "10000159681776567e-16", "20000138400118741e-16", "20000290988009366e-16", "20000014187771884e-16", "20000166775662509e-16",
"40000124212346857e-16", "40000276800237482e-16", "40000028375543768e-16", "40000180963434393e-16", "80000095836803089e-16", "80000248424693714e-16", "80000056751087536e-16", "80000209338978161e-16",
"10000002142034357e-15", "10000032659612482e-15", "10000028375543768e-15", "10000058893121893e-15", "16000004284068714e-15", "16000034801646839e-15", "16000026233509411e-15", "16000056751087536e-15",
"32000008568137428e-15", "32000039085715553e-15", "32000021949440697e-15", "32000052467018822e-15", "64000017136274856e-15", "64000047653852981e-15", "64000013381303269e-15", "64000043898881394e-15",
"10000002464621803e-14", "10000008568137428e-14", "10000003638893822e-14", "10000009742409447e-14", "12800004929243606e-14", "12800011032759231e-14", "12800001174272019e-14", "12800007277787644e-14",
"25600003754971587e-14", "25600009858487212e-14", "25600002348544038e-14", "25600008452059663e-14", "51200001406427549e-14", "51200007509943174e-14", "51200004697088076e-14", "51200010800603701e-14",
"10000000092862212e-13", "10000001313565337e-13", "10000001127840913e-13", "10000002348544038e-13", "10240000185724424e-13", "10240001406427549e-13", "10240001034978701e-13", "10240002255681826e-13",
"20480000371448848e-13", "20480001592151973e-13", "20480000849254277e-13", "20480002069957402e-13", "40960000742897696e-13", "40960001963600821e-13", "40960000477805429e-13", "40960001698508554e-13",
"81920000265092267e-13", "81920001485795392e-13", "81920000955610858e-13", "81920002176313983e-13", "10000000010475821e-12", "10000000254616446e-12", "10000000233664804e-12", "10000000477805429e-12",
"16384000020951642e-12", "16384000265092267e-12", "16384000223188983e-12", "16384000467329608e-12", "32768000041903284e-12", "32768000286043909e-12", "32768000202237341e-12", "32768000446377966e-12",
"65536000083806568e-12", "65536000327947193e-12", "65536000160334057e-12", "65536000404474682e-12", "10000000041903284e-11", "10000000090731409e-11", "10000000006924841e-11", "10000000055752966e-11",
"13107200034978443e-11", "13107200083806568e-11", "13107200013849682e-11", "13107200062677807e-11", "26214400021128761e-11", "26214400069956886e-11", "26214400027699364e-11", "26214400076527489e-11",
"52428800042257522e-11", "52428800091085647e-11", "52428800006570603e-11", "52428800055398728e-11", "10000000001597511e-10", "10000000011363136e-10", "10000000008168114e-10", "10000000017933739e-10",
"10485760003195022e-10", "10485760012960647e-10", "10485760006570603e-10", "10485760016336228e-10", "20971520006390044e-10", "20971520016155669e-10", "20971520003375581e-10", "20971520013141206e-10",
"41943040003014463e-10", "41943040012780088e-10", "41943040006751162e-10", "41943040016516787e-10", "83886080006028926e-10", "83886080015794551e-10", "83886080003736699e-10", "83886080013502324e-10",
"10000000001061338e-9", "10000000003014463e-9", "10000000000891787e-9", "10000000002844912e-9", "16777216000169551e-9", "16777216002122676e-9", "16777216001783574e-9", "16777216003736699e-9",
"33554432000339102e-9", "33554432002292227e-9", "33554432001614023e-9", "33554432003567148e-9", "67108864000678204e-9", "67108864002631329e-9", "67108864001274921e-9", "67108864003228046e-9",
"10000000000339102e-8", "10000000000729727e-8", "10000000000051523e-8", "10000000000442148e-8", "13421772800287579e-8", "13421772800678204e-8", "13421772800103046e-8", "13421772800493671e-8",
"26843545600184533e-8", "26843545600575158e-8", "26843545600206092e-8", "26843545600596717e-8", "53687091200369066e-8", "53687091200759691e-8", "53687091200021559e-8", "53687091200412184e-8",
"10000000000028283e-7", "10000000000106408e-7", "10000000000049842e-7", "10000000000127967e-7", "10737418240056566e-7", "10737418240134691e-7", "10737418240021559e-7", "10737418240099684e-7",
"21474836480035007e-7", "21474836480113132e-7", "21474836480043118e-7", "21474836480121243e-7", "42949672960070014e-7", "42949672960148139e-7", "42949672960008111e-7", "42949672960086236e-7",
"85899345920061903e-7", "85899345920140028e-7", "85899345920016222e-7", "85899345920094347e-7", "10000000000007514e-6", "10000000000023139e-6", "10000000000008111e-6", "10000000000023736e-6",
"17179869184015028e-6", "17179869184030653e-6", "17179869184000597e-6", "17179869184016222e-6", "34359738368014431e-6", "34359738368030056e-6", "34359738368001194e-6", "34359738368016819e-6",
"68719476736013237e-6", "68719476736028862e-6", "68719476736002388e-6", "68719476736018013e-6", "10000000000001931e-5", "10000000000005056e-5", "10000000000001194e-5", "10000000000004319e-5",
"13743895347200737e-5", "13743895347203862e-5", "13743895347202388e-5", "13743895347205513e-5", "27487790694401474e-5", "27487790694404599e-5", "27487790694401651e-5", "27487790694404776e-5",
"54975581388802948e-5", "54975581388806073e-5", "54975581388800177e-5", "54975581388803302e-5", "10000000000000224e-4", "10000000000000849e-4", "10000000000000401e-4", "10000000000001026e-4",
"10995116277760448e-4", "10995116277761073e-4", "10995116277760177e-4", "10995116277760802e-4", "21990232555520271e-4", "21990232555520896e-4", "21990232555520354e-4", "21990232555520979e-4",
"43980465111040542e-4", "43980465111041167e-4", "43980465111040083e-4", "43980465111040708e-4", "87960930222080459e-4", "87960930222081084e-4", "87960930222080166e-4", "87960930222080791e-4",
"10000000000000042e-3", "10000000000000167e-3", "10000000000000083e-3", "10000000000000208e-3", "17592186044416084e-3", "17592186044416209e-3", "17592186044416041e-3", "17592186044416166e-3",
"35184372088832043e-3", "35184372088832168e-3", "35184372088832082e-3", "35184372088832207e-3", "70368744177664086e-3", "70368744177664211e-3", "70368744177664039e-3", "70368744177664164e-3",
"10000000000000018e-2", "10000000000000043e-2", "10000000000000007e-2", "10000000000000032e-2", "14073748835532811e-2", "14073748835532836e-2", "14073748835532814e-2", "14073748835532839e-2",
"28147497671065622e-2", "28147497671065647e-2", "28147497671065603e-2", "28147497671065628e-2", "56294995342131219e-2", "56294995342131244e-2", "56294995342131206e-2", "56294995342131231e-2",
"10000000000000002e-1", "10000000000000007e-1", "10000000000000003e-1", "10000000000000008e-1", "11258999068426244e-1", "11258999068426249e-1", "11258999068426241e-1", "11258999068426246e-1",
"22517998136852483e-1", "22517998136852488e-1", "22517998136852482e-1", "22517998136852487e-1", "45035996273704965e-1", "45035996273704975e-1", "45035996273704965e-1", "45035996273704975e-1",
"90071992547409930e-1", "90071992547409950e-1", "90071992547409930e-1", "90071992547409950e-1", "10000000000000001e0", "10000000000000003e0", "10000000000000001e0", "10000000000000003e0",
"18014398509481986e0", "18014398509481990e0", "18014398509481986e0", "18014398509481990e0", "36028797018963972e0", "36028797018963980e0", "36028797018963972e0", "36028797018963980e0",
"72057594037927944e0", "72057594037927960e0", "72057594037927944e0", "72057594037927960e0", "10000000000000004e1", "10000000000000012e1", "10000000000000004e1", "10000000000000012e1",
"14411518807585592e1", "14411518807585608e1", "14411518807585592e1", "14411518807585608e1", "28823037615171184e1", "28823037615171216e1", "28823037615171184e1", "28823037615171216e1",
"57646075230342368e1", "57646075230342432e1", "57646075230342368e1", "57646075230342432e1", "10000000000000016e2", "10000000000000048e2", "10000000000000016e2", "10000000000000048e2",
"11529215046068512e2", "11529215046068576e2", "11529215046068512e2", "11529215046068576e2", "23058430092137024e2", "23058430092137152e2", "23058430092137024e2", "23058430092137152e2",
"46116860184274048e2", "46116860184274304e2", "46116860184274048e2", "46116860184274304e2", "92233720368548096e2", "92233720368548608e2", "92233720368548096e2", "92233720368548608e2",
"10000000000000128e3", "10000000000000384e3", "10000000000000128e3", "10000000000000384e3", "18446744073709824e3", "18446744073710336e3", "18446744073709824e3", "18446744073710336e3",
"36893488147419648e3", "36893488147420672e3", "36893488147419648e3", "36893488147420672e3", "73786976294839296e3", "73786976294841344e3", "73786976294839296e3", "73786976294841344e3",
"10000000000000512e4", "10000000000001536e4", "10000000000000512e4", "10000000000001536e4", "14757395258969088e4", "14757395258971136e4", "14757395258969088e4", "14757395258971136e4",
"29514790517938176e4", "29514790517942272e4", "29514790517938176e4", "29514790517942272e4", "59029581035876352e4", "59029581035884544e4", "59029581035876352e4", "59029581035884544e4",
"10000000000002048e5", "10000000000006144e5", "10000000000002048e5", "10000000000006144e5", "11805916207181824e5", "11805916207190016e5", "11805916207181824e5", "11805916207190016e5",
"23611832414363648e5", "23611832414380032e5", "23611832414363648e5", "23611832414380032e5", "47223664828727296e5", "47223664828760064e5", "47223664828727296e5", "47223664828760064e5",
"94447329657454592e5", "94447329657520128e5", "94447329657454592e5", "94447329657520128e5", "10000000000016384e6", "10000000000049152e6", "10000000000016384e6", "10000000000049152e6",
"18889465931530240e6", "18889465931595776e6", "18889465931530240e6", "18889465931595776e6", "37778931863060480e6", "37778931863191552e6", "37778931863060480e6", "37778931863191552e6",
"75557863726120960e6", "75557863726383104e6", "75557863726120960e6", "75557863726383104e6", "10000000000000000e7", "10000000000131072e7", "10000000000000000e7", "10000000000131072e7",
"15111572745224192e7", "15111572745486336e7", "15111572745224192e7", "15111572745486336e7", "30223145490448384e7", "30223145490972672e7", "30223145490448384e7", "30223145490972672e7",
"60446290980896768e7", "60446290981945344e7", "60446290980896768e7", "60446290981945344e7", "10000000000196608e8", "10000000000720896e8", "10000000000196608e8", "10000000000720896e8",
"12089258196598784e8", "12089258197647360e8", "12089258196598784e8", "12089258197647360e8", "24178516393197568e8", "24178516395294720e8", "24178516393197568e8", "24178516395294720e8",
"48357032786395136e8", "48357032790589440e8", "48357032786395136e8", "48357032790589440e8", "96714065572790272e8", "96714065581178880e8", "96714065572790272e8", "96714065581178880e8",
"10000000002031616e9", "10000000006225920e9", "10000000002031616e9", "10000000006225920e9", "19342813116235776e9", "19342813124624384e9", "19342813116235776e9", "19342813124624384e9",
"38685626232471552e9", "38685626249248768e9", "38685626232471552e9", "38685626249248768e9", "77371252464943104e9", "77371252498497536e9", "77371252464943104e9", "77371252498497536e9",
"10000000012517376e10", "10000000029294592e10", "10000000012517376e10", "10000000029294592e10", "15474250513121280e10", "15474250546675712e10", "15474250513121280e10", "15474250546675712e10",
"30948501026242560e10", "30948501093351424e10", "30948501026242560e10", "30948501093351424e10", "61897002052485120e10", "61897002186702848e10", "61897002052485120e10", "61897002186702848e10",
"10000000037683200e11", "10000000104792064e11", "10000000037683200e11", "10000000104792064e11", "12379400410497024e11", "12379400544714752e11", "12379400410497024e11", "12379400544714752e11",
"24758800820994048e11", "24758801089429504e11", "24758800820994048e11", "24758801089429504e11", "49517601641988096e11", "49517602178859008e11", "49517601641988096e11", "49517602178859008e11",
"99035203283976192e11", "99035204357718016e11", "99035203283976192e11", "99035204357718016e11", "10000000004128768e12", "10000000540999680e12", "10000000004128768e12", "10000000540999680e12",
"19807041086291968e12", "19807042160033792e12", "19807041086291968e12", "19807042160033792e12", "39614082172583936e12", "39614084320067584e12", "39614082172583936e12", "39614084320067584e12",
"79228164345167872e12", "79228168640135168e12", "79228164345167872e12", "79228168640135168e12", "10000001346306048e13", "10000003493789696e13", "10000001346306048e13", "10000003493789696e13",
"15845635446013952e13", "15845639740981248e13", "15845635446013952e13", "15845639740981248e13", "31691270892027904e13", "31691279481962496e13", "31691270892027904e13", "31691279481962496e13",
"63382541784055808e13", "63382558963924992e13", "63382541784055808e13", "63382558963924992e13", "10000002420047872e14", "10000011009982464e14", "10000002420047872e14", "10000011009982464e14",
"12676518664732672e14", "12676535844601856e14", "12676518664732672e14", "12676535844601856e14", "25353037329465344e14", "25353071689203712e14", "25353037329465344e14", "25353071689203712e14",
"50706074658930688e14", "50706143378407424e14", "50706074658930688e14", "50706143378407424e14", "10000006715015168e15", "10000041074753536e15", "10000006715015168e15", "10000041074753536e15",
"10141242419576832e15", "10141311139053568e15", "10141242419576832e15", "10141311139053568e15", "20282484839153664e15", "20282622278107136e15", "20282484839153664e15", "20282622278107136e15",
"40564969678307328e15", "40565244556214272e15", "40564969678307328e15", "40565244556214272e15", "81129939356614656e15", "81130489112428544e15", "81129939356614656e15", "81130489112428544e15",
"10000195693576192e16", "10000470571483136e16", "10000195693576192e16", "10000470571483136e16", "16226317724811264e16", "16226867480625152e16", "16226317724811264e16", "16226867480625152e16",
"32452635449622528e16", "32453734961250304e16", "32452635449622528e16", "32453734961250304e16", "64905270899245056e16", "64907469922500608e16", "64905270899245056e16", "64907469922500608e16",
"10000608010436608e17", "10001707522064384e17", "10000608010436608e17", "10001707522064384e17", "12981933789151232e17", "12984132812406784e17", "12981933789151232e17", "12984132812406784e17",
"25963867578302464e17", "25968265624813568e17", "25963867578302464e17", "25968265624813568e17", "51927735156604928e17", "51936531249627136e17", "51927735156604928e17", "51936531249627136e17",
"10003356789506048e18", "10007754836017152e18", "10003356789506048e18", "10007754836017152e18", "10392583905738752e18", "10401379998760960e18", "10392583905738752e18", "10401379998760960e18",
"20785167811477504e18", "20802759997521920e18", "20785167811477504e18", "20802759997521920e18", "41570335622955008e18", "41605519995043840e18", "41570335622955008e18", "41605519995043840e18",
"83140671245910016e18", "83211039990087680e18", "83140671245910016e18", "83211039990087680e18", "10009953859272704e19", "10045138231361536e19", "10009953859272704e19", "10045138231361536e19",
"16642207998017536e19", "16712576742195200e19", "16642207998017536e19", "16712576742195200e19", "33284415996035072e19", "33425153484390400e19", "33284415996035072e19", "33425153484390400e19",
"66568831992070144e19", "66850306968780800e19", "66568831992070144e19", "66850306968780800e19", "10062730417405952e20", "10203467905761280e20", "10062730417405952e20", "10203467905761280e20",
"13370061393756160e20", "13651536370466816e20", "13370061393756160e20", "13651536370466816e20", "26740122787512320e20", "27303072740933632e20", "26740122787512320e20", "27303072740933632e20",
"53480245575024640e20", "54606145481867264e20", "53480245575024640e20", "54606145481867264e20", "10414574138294272e21", "10414574138294272e21", "10696049115004928e21", "11821949021847552e21",
"10696049115004928e21", "11821949021847552e21", "21392098230009856e21", "23643898043695104e21", "21392098230009856e21", "23643898043695104e21", "42784196460019712e21", "47287796087390208e21",
"42784196460019712e21", "47287796087390208e21", "85568392920039424e21", "94575592174780416e21", "85568392920039424e21", "94575592174780416e21", "11258999068426240e22", "15762598695796736e22",
"11258999068426240e22", "15762598695796736e22", "22517998136852480e22", "31525197391593472e22", "22517998136852480e22", "31525197391593472e22", "45035996273704960e22", "63050394783186944e22",
"45035996273704960e22", "63050394783186944e22", "90071992547409920e22", "90071992547409920e22", "18014398509481984e23", "18014398509481984e23", "36028797018963968e23", "36028797018963968e23",
"72057594037927936e23", "72057594037927936e23", "84161538867545199e25", "54897030182071313e29", "52630901864813779e30", "71294489295714757e38", "42642289439837259e44", "85284578879674518e44",
"47698585932090863e46", "95397171864181726e46", "78459735791271921e49", "58483921078398283e57", "24719417705125797e59", "49438835410251594e59", "98877670820503188e59", "42487477134843939e62",
"84974954269687878e62", "45067214989181897e70", "90134429978363794e70", "72844871414247907e77", "38558880168875887e78", "77117760337751774e78", "52948708506198027e80", "86663468664954437e84",
"48166999081675081e92", "96333998163350162e92", "32984101887414231e94", "65968203774828462e94", "79014080059426685e97", "15802816011885337e98", "31605632023770674e98", "63211264047541348e98",
"25023555121348549e100", "50047110242697098e100", "24181049277838517e102", "48362098555677034e102", "96724197111354068e102", "88839359596763261e105", "73429396004640239e106", "90473183532797917e107",
"60832886017963079e110", "26525993941010681e112", "53051987882021362e112", "92423963360811319e114", "95924044198226819e117", "60901818845917857e129", "86026189875397861e131", "59539987636773803e134",
"78179259957184001e134", "54223535416644243e147", "31766135423537365e154", "63532270847074730e154", "12706454169414946e155", "25412908338829892e155", "50825816677659784e155", "40324380212685269e158",
"80648760425370538e158", "41391519190645203e165", "82783038381290406e165", "45447941047425917e172", "90895882094851834e172", "74173881002182461e175", "28863057365094743e176", "57726114730189486e176",
"54815725102029643e181", "61481046769943581e186", "35615953483387297e188", "71231906966774594e188", "89786174132588295e201", "17957234826517659e202", "35914469653035318e202", "71828939306070636e202",
"87757945370982953e203", "81728586754912745e207", "16345717350982549e208", "32691434701965098e208", "65382869403930196e208", "46623773100548075e211", "65273282340767305e211", "93247546201096150e211",
"13054656468153461e212", "18649509240219230e212", "26109312936306922e212", "37299018480438460e212", "52218625872613844e212", "74598036960876920e212", "14919607392175384e213", "29839214784350768e213",
"59678429568701536e213", "82310814274709837e216", "45742715937990367e228", "91485431875980734e228", "35805866579493419e232", "71611733158986838e232", "28092336091298597e235", "56184672182597194e235",
"96780866849199287e239", "40033950534738767e241", "80067901069477534e241", "74796419973811227e250", "34235034543877237e251", "68470069087754474e251", "33498842873618617e258", "66997685747237234e258",
"26611383529231227e263", "44352305882052045e263", "53222767058462454e263", "88704611764104090e263", "17740922352820818e264", "35481844705641636e264", "70963689411283272e264", "40169472794003963e266",
"80338945588007926e266", "62641537320658381e267", "86238081677124441e267", "76799463934538017e268", "38528784166653671e269", "77057568333307342e269", "38632025926161401e270", "77264051852322802e270",
"29142293107802339e273", "58284586215604678e273", "26400333297634681e276", "33943285668387447e276", "52800666595269362e276", "67886571336774894e276", "50992146589980351e280", "247032822920623272e-341",
"741098468761869816e-341", "469362363549184217e-340", "106224113855868007e-339", "400662535494958885e-337", "955942914855935876e-337", "958766500021918600e-336", "751269057114334797e-335", "760856722114553983e-334",
"780032052114992355e-334", "307218988345887349e-333", "921656965037662047e-333", "260896448468998767e-332", "782689345406996301e-332", "412802063562709169e-331", "315051089340796295e-330", "945153268022388885e-330",
"301035572691444161e-328", "903106718074332483e-328", "658637802015581120e-326", "959673374707025281e-326", "218280187022028301e-324", "481735307828260749e-324", "436560374044056602e-324", "963470615656521498e-324",
"873120748088113204e-324", "362863103056137467e-319", "725726206112274934e-319", "942412143524680679e-319", "409433411177876271e-317", "818866822355752542e-317", "539835622285316351e-315", "419326741053447575e-313",
"838653482106895150e-313", "167730696421379030e-312", "335461392842758060e-312", "312299886124776179e-312", "647761278967534239e-312", "670922785685516120e-312", "624599772249552358e-312", "134184557137103224e-311",
"268369114274206448e-311", "536738228548412896e-311", "381053705903934819e-309", "762107411807869638e-309", "264401429414852883e-308", "528802858829705766e-308", "770389514897253869e-307", "436106094355293849e-305",
"872212188710587698e-305", "277328420000990247e-302", "554656840001980494e-302", "665038161019558141e-302", "998932358986383341e-301", "754600300350077427e-299", "324859254936384129e-298", "649718509872768258e-298",
"570762420155183543e-297", "886586779025522403e-297", "253115201933985807e-295", "506230403867971614e-295", "925586047080544869e-292", "391090482076773423e-291", "782180964153546846e-291", "486693870694772105e-290",
"681371418972680947e-290", "973387741389544210e-290", "194677548277908842e-289", "389355096555817684e-289", "778710193111635368e-289", "912207860072642375e-289", "645212526150628361e-289", "182441572014528475e-288",
"364883144029056950e-288", "729766288058113900e-288", "145953257611622780e-287", "291906515223245560e-287", "583813030446491120e-287", "116762606089298224e-286", "233525212178596448e-286", "467050424357192896e-286",
"934100848714385792e-286", "221592183356401045e-284", "443184366712802090e-284", "685219031536719533e-284", "886368733425604180e-284", "177273746685120836e-283", "354547493370241672e-283", "596582158194159115e-283",
"709094986740483344e-283", "951129651564400787e-283", "119316431638831823e-282", "238632863277663646e-282", "477265726555327292e-282", "954531453110654584e-282", "614322201738668645e-281", "122864440347733729e-280",
"245728880695467458e-280", "491457761390934916e-280", "410584596899431623e-280", "982915522781869832e-280", "821169193798863246e-280", "638273212364023875e-279", "127654642472804775e-278", "255309284945609550e-278",
"510618569891219100e-278", "102123713978243820e-277", "204247427956487640e-277", "408494855912975280e-277", "816989711825950560e-277", "163397942365190112e-276", "326795884730380224e-276", "653591769460760448e-276",
"316903746305501773e-275", "752631592612675405e-275", "633807492611003546e-275", "150526318522535081e-274", "301052637045070162e-274", "602105274090140324e-274", "999814145952904179e-273", "727937025059278617e-271",
"436605875337276835e-270", "873211750674553670e-270", "174642350134910734e-269", "349284700269821468e-269", "698569400539642936e-269", "377870626298005473e-268", "755741252596010946e-268", "822167881526593159e-267",
"323857485738715943e-266", "647714971477431886e-266", "383619316014537811e-265", "767238632029075622e-265", "454044824137976231e-263", "908089648275952462e-263", "778719523929165003e-255", "743229428857314279e-254",
"931959917866771227e-253", "334258367532782867e-252", "668516735065565734e-252", "763694482464753257e-250", "274384612902210435e-249", "548769225804420870e-249", "109753845160884174e-248", "219507690321768348e-248",
"439015380643536696e-248", "878030761287073392e-248", "239626982974127991e-246", "479253965948255982e-246", "958507931896511964e-246", "700596126819355907e-246", "434985533774035997e-245", "869971067548071994e-245",
"470400279513411985e-243", "658560391318776779e-243", "940800559026823970e-243", "188160111805364794e-242", "376320223610729588e-242", "582434108031062291e-242", "752640447221459176e-242", "922846786411856061e-242",
"552126405300460369e-237", "867649996729757203e-237", "318667661027363257e-235", "637335322054726514e-235", "507949912124294085e-235", "101589982424858817e-234", "203179964849717634e-234", "406359929699435268e-234",
"812719859398870536e-234", "217249918048718487e-232", "434499836097436974e-232", "868999672194873948e-232", "501564077281351937e-231", "532671692287444215e-230", "657102152311813327e-230", "106534338457488843e-229",
"213068676914977686e-229", "426137353829955372e-229", "852274707659910744e-229", "259261636611349277e-228", "518523273222698554e-228", "911285483608932707e-227", "647380140434531145e-226", "129476028086906229e-225",
"258952056173812458e-225", "517904112347624916e-225", "408241232263075103e-225", "926145344610700019e-225", "816482464526150206e-225", "348525561827370045e-224", "806714003739289903e-224", "697051123654740090e-224",
"139410224730948018e-223", "278820449461896036e-223", "667303779008341885e-223", "557640898923792072e-223", "133460755801668377e-222", "266921511603336754e-222", "533843023206673508e-222", "763935847917025255e-220",
"152787169583405051e-219", "305574339166810102e-219", "611148678333620204e-219", "948668652160830819e-219", "557588111884085347e-215", "276987693219722125e-214", "553975386439444250e-214", "110795077287888850e-213",
"221590154575777700e-213", "443180309151555400e-213", "886360618303110800e-213", "177272123660622160e-212", "354544247321244320e-212", "709088494642488640e-212", "141817698928497728e-211", "283635397856995456e-211",
"567270795713990912e-211", "397756229132766525e-210", "795512458265533050e-210", "854239554235850801e-210", "159102491653106610e-209", "318204983306213220e-209", "636409966612426440e-209", "376932079276530971e-209",
"753864158553061942e-209", "127281993322485288e-208", "254563986644970576e-208", "509127973289941152e-208", "504214072599016259e-207", "915447571783709095e-206", "183089514356741819e-205", "366179028713483638e-205",
"732358057426967276e-205", "259392590687797857e-203", "518785181375595714e-203", "210144603245768395e-201", "420289206491536790e-201", "840578412983073580e-201", "168115682596614716e-200", "336231365193229432e-200",
"672462730386458864e-200", "221771611784045445e-198", "443543223568090890e-198", "887086447136181780e-198", "177417289427236356e-197", "354834578854472712e-197", "709669157708945424e-197", "954111457662650859e-195",
"375611500069030229e-194", "751223000138060458e-194", "895434517169642435e-194", "179086903433928487e-193", "358173806867856974e-193", "716347613735713948e-193", "386527137161388855e-191", "773054274322777710e-191",
"154610854864555542e-190", "309221709729111084e-190", "618443419458222168e-190", "253013701146029229e-187", "506027402292058458e-187", "491064749666143633e-187", "982129499332287266e-187", "991107090907836161e-186",
"988713066487689789e-185", "604719157109316459e-184", "969560871126518813e-184", "758316720860665791e-183", "474180227963768603e-182", "948360455927537206e-182", "322145239910271471e-180", "644290479820542942e-180",
"880701496210673661e-179", "582804826183792493e-178", "354878301258263433e-177", "709756602516526866e-177", "882293683834367051e-176", "468204688671550607e-175", "936409377343101214e-175", "919626583033993617e-174",
"986757760270424005e-173", "197351552054084801e-172", "642526014227233623e-172", "394703104108169602e-172", "789406208216339204e-172", "207445823667080645e-171", "414891647334161290e-171", "829783294668322580e-171",
"165956658933664516e-170", "331913317867329032e-170", "663826635734658064e-170", "913873702416587591e-170", "467953295061676625e-168", "935906590123353250e-168", "187181318024670650e-167", "374362636049341300e-167",
"748725272098682600e-167", "149745054419736520e-166", "299490108839473040e-166", "598980217678946080e-166", "119796043535789216e-165", "239592087071578432e-165", "479184174143156864e-165", "958368348286313728e-165",
"809181480901293551e-165", "221511043134266781e-164", "443022086268533562e-164", "293835218883513385e-164", "886044172537067124e-164", "587670437767026770e-164", "117534087553405354e-163", "235068175106810708e-163",
"470136350213621416e-163", "940272700427242832e-163", "501789130045236239e-162", "948428009258102501e-161", "322046203849308445e-160", "644092407698616890e-160", "128818481539723378e-159", "257636963079446756e-159",
"515273926158893512e-159", "752925372212267729e-155", "226400326187154493e-154", "452800652374308986e-154", "905601304748617972e-154", "649711221101141779e-153", "972756940650035285e-152", "194551388130007057e-151",
"389102776260014114e-151", "778205552520028228e-151", "802017074326344929e-150", "611524899875811321e-149", "519308679485913679e-148", "385358184003466321e-147", "770716368006932642e-147", "627868703104639279e-146",
"530104882161767121e-144", "274497423737691809e-141", "548994847475383618e-141", "330280850856132891e-140", "660561701712265782e-140", "544575135620870017e-139", "963623054601795453e-137", "234494687954642387e-135",
"468989375909284774e-135", "799790320746083163e-135", "937978751818569548e-135", "689580091782961629e-133", "435858204041374799e-132", "871716408082749598e-132", "452531159156159995e-130", "984984367311511449e-130",
"825140269313128531e-130", "905062318312319990e-130", "181012463662463998e-129", "362024927324927996e-129", "441946976324119455e-129", "724049854649855992e-129", "883893952648238910e-129", "176778790529647782e-128",
"353557581059295564e-128", "707115162118591128e-128", "633418065552553303e-121", "818890380379802113e-120", "967268232241601161e-119", "430858209427198709e-118", "861716418854397418e-118", "874059802797014503e-117",
"840482410595159463e-114", "639001117994346379e-114", "941223056895566005e-114", "188244611379113201e-113", "376489222758226402e-113", "739741764294752921e-113", "752978445516452804e-113", "519142903128497033e-112",
"675033264720467547e-112", "757978136698289949e-110", "619076724796430887e-108", "795955789023982569e-108", "425400219004399827e-105", "536465704450171007e-105", "850800438008799654e-105", "240850033362737171e-100",
"481700066725474342e-100", "698475761182871411e-100", "963400133450948684e-100", "332375178926764019e-99", "664750357853528038e-99", "891026794059795895e-95", "178205358811959179e-94", "356410717623918358e-94",
"712821435247836716e-94", "336832339915609795e-93", "673664679831219590e-93", "134732935966243918e-92", "362936843526687879e-92", "269465871932487836e-92", "725873687053375758e-92", "538931743864975672e-92",
"382082394995316237e-89", "764164789990632474e-89", "919693756000386505e-89", "183938751200077301e-88", "608635823980878443e-88", "367877502400154602e-88", "976513326381033045e-88", "735755004800309204e-88",
"195302665276206609e-87", "390605330552413218e-87", "781210661104826436e-87", "756633275333743633e-85", "972814211143384671e-85", "641089292770173715e-84", "128217858554034743e-83", "256435717108069486e-83",
"512871434216138972e-83", "817015447281386305e-83", "163403089456277261e-82", "326806178912554522e-82", "653612357825109044e-82", "200616140516994151e-81", "401232281033988302e-81", "802464562067976604e-81",
"705376294099235635e-81", "141075258819847127e-80", "282150517639694254e-80", "564301035279388508e-80", "203512944151241009e-78", "407025888302482018e-78", "814051776604964036e-78", "255308161864384887e-77",
"510616323728769774e-77", "862179067616773411e-77", "823677234807325911e-76", "274559078269108637e-75", "549118156538217274e-75", "262238491770085437e-74", "524476983540170874e-74", "885280167302441911e-74",
"550903603208250963e-71", "651067894700660229e-71", "150246437238613899e-70", "300492874477227798e-70", "600985748954455596e-70", "973125533691547457e-70", "293064217069626003e-68", "586128434139252006e-68",
"862304345723631903e-66", "841867611108028315e-66", "168373522221605663e-65", "336747044443211326e-65", "673494088886422652e-65", "237766604571808287e-64", "475533209143616574e-64", "951066418287233148e-64",
"412057598297654033e-63", "824115196595308066e-63", "290355264577758749e-61", "580710529155517498e-61", "665960041681504197e-60", "200108733674979047e-59", "400217467349958094e-59", "800434934699916188e-59",
"358912835932851133e-58", "717825671865702266e-58", "657057673057027229e-57", "900129668291727377e-57", "485204121125767905e-54", "970408242251535810e-54", "194081648450307162e-53", "388163296900614324e-53",
"776326593801228648e-53", "753090145144851333e-47", "251030048381617111e-46", "502060096763234222e-46", "848575795455000261e-46", "370539197796293741e-45", "741078395592587482e-45", "514193515537090449e-44",
"615981462106152391e-40", "396148686835522629e-39", "792297373671045258e-39", "835814237376782153e-39", "725666593566171069e-35", "476453916405182225e-34", "952907832810364450e-34", "190581566562072890e-33",
"381163133124145780e-33", "762326266248291560e-33", "152465253249658312e-32", "304930506499316624e-32", "609861012998633248e-32", "530399411294680269e-30", "883999018824467115e-30", "176799803764893423e-29",
"353599607529786846e-29", "707199215059573692e-29", "731118151584080399e-29", "869145719979099165e-27", "173829143995819833e-26", "347658287991639666e-26", "595833608565072371e-26", "695316575983279332e-26",
"198540256458746164e-25", "397080512917492328e-25", "496989158713367047e-25", "794161025834984656e-25", "695955093549780969e-25", "993978317426734094e-25", "138509933305687781e-24", "198114578081078406e-24",
"159513290571265344e-24", "219117935346655969e-24", "277019866611375562e-24", "336624511386766187e-24", "259421936367140063e-24", "319026581142530688e-24", "494435088447360499e-24", "554039733222751124e-24",
"518843872734280126e-24", "578448517509670751e-24", "988870176894720998e-24", "978083100693169627e-24", "101044432929782374e-23", "112965361884860499e-23", "101611359306545751e-23", "113532288261623876e-23",
"202088865859564748e-23", "214009794814642873e-23", "191301789658013377e-23", "203222718613091502e-23", "392256802764051371e-23", "404177731719129496e-23", "382603579316026754e-23", "394524508271104879e-23",
"772592676573024617e-23", "784513605528102742e-23", "765207158632053508e-23", "777128087587131633e-23", "101386136260145121e-22", "103770322051160746e-22", "101269655976183004e-22", "103653841767198629e-22",
"152704370908962117e-22", "155088556699977742e-22", "154855596132053508e-22", "157239781923069133e-22", "305408741817924234e-22", "307792927608939859e-22", "307327006473091391e-22", "309711192264107016e-22",
"610817483635848468e-22", "613201669426864093e-22", "612269827155167157e-22", "614654012946182782e-22", "100368763790580484e-21", "100845600948783609e-21", "100379679812935141e-21", "100856516971138266e-21",
"122536233635848468e-21", "123013070794051593e-21", "122081228522354657e-21", "122558065680557782e-21", "244595630113493811e-21", "245072467271696936e-21", "244162457044709314e-21", "244639294202912439e-21",
"488714423068784497e-21", "489191260226987622e-21", "488324914089418628e-21", "488801751247621753e-21", "976952008979365869e-21", "977428846137568994e-21", "976649828178837256e-21", "977126665337040381e-21",
"100092139133237622e-20", "100187506564878247e-20", "100084099880434253e-20", "100179467312074878e-20", "195320539252803369e-20", "195415906684443994e-20", "195399828178837256e-20", "195495195610477881e-20",
"390641078505606738e-20", "390736445937247363e-20", "390704288926033887e-20", "390799656357674512e-20", "781282157011213476e-20", "781377524442854101e-20", "781313210420427149e-20", "781408577852067774e-20",
"100018367323966113e-19", "100037440810294238e-19", "100005283799080762e-19", "100024357285408887e-19", "156263083524885351e-19", "156282157011213476e-19", "156255989961442774e-19", "156275063447770899e-19",
"312507093563442577e-19", "312526167049770702e-19", "312511979922885548e-19", "312531053409213673e-19", "625014187126885154e-19", "625033260613213279e-19", "625004886359442971e-19", "625023959845771096e-19",
"100001752987270702e-18", "100005567684536327e-18", "100002824649448048e-18", "100006639346713673e-18", "125002743035088279e-18", "125006557732353904e-18", "125001071662177346e-18", "125004886359442971e-18",
"250001671372910933e-18", "250005486070176558e-18", "250002143324354692e-18", "250005958021620317e-18", "500003342745821866e-18", "500007157443087491e-18", "500000471951443759e-18", "500004286648709384e-18",
"100000290988009366e-17", "100001053927462491e-17", "100000471951443759e-17", "100001234890896884e-17", "200000581976018732e-17", "200001344915471857e-17", "200000180963434393e-17", "200000943902887518e-17",
"400000401012584339e-17", "400001163952037464e-17", "400000361926868786e-17", "400001124866321911e-17", "800000039085715553e-17", "800000802025168678e-17", "800000723853737572e-17", "800001486793190697e-17",
"100000095836803089e-16", "100000248424693714e-16", "100000056751087536e-16", "100000209338978161e-16", "160000039085715553e-16", "160000191673606178e-16", "160000113502175072e-16", "160000266090065697e-16",
"320000078171431106e-16", "320000230759321731e-16", "320000074416459519e-16", "320000227004350144e-16", "640000003754971587e-16", "640000156342862212e-16", "640000148832919038e-16", "640000301420809663e-16",
"100000017136274856e-15", "100000047653852981e-15", "100000013381303269e-15", "100000043898881394e-15", "128000003754971587e-15", "128000034272549712e-15", "128000026762606538e-15", "128000057280184663e-15",
"256000007509943174e-15", "256000038027521299e-15", "256000023007634951e-15", "256000053525213076e-15", "512000015019886348e-15", "512000045537464473e-15", "512000015497691777e-15", "512000046015269902e-15",
"100000001406427549e-14", "100000007509943174e-14", "100000004697088076e-14", "100000010800603701e-14", "102400002812855098e-14", "102400008916370723e-14", "102400003290660527e-14", "102400009394176152e-14",
"204800005625710196e-14", "204800011729225821e-14", "204800000477805429e-14", "204800006581321054e-14", "409600005147904767e-14", "409600011251420392e-14", "409600000955610858e-14", "409600007059126483e-14",
"819200004192293909e-14", "819200010295809534e-14", "819200001911221716e-14", "819200008014737341e-14", "100000000265092267e-13", "100000001485795392e-13", "100000000955610858e-13", "100000002176313983e-13",
"163840000530184534e-13", "163840001750887659e-13", "163840000690518591e-13", "163840001911221716e-13", "327680001060369068e-13", "327680002281072193e-13", "327680000160334057e-13", "327680001381037182e-13",
"655360000900035011e-13", "655360002120738136e-13", "655360000320668114e-13", "655360001541371239e-13", "100000000083806568e-12", "100000000327947193e-12", "100000000160334057e-12", "100000000404474682e-12",
"131072000167613136e-12", "131072000411753761e-12", "131072000076527489e-12", "131072000320668114e-12", "262144000091085647e-12", "262144000335226272e-12", "262144000153054978e-12", "262144000397195603e-12",
"524288000182171294e-12", "524288000426311919e-12", "524288000061969331e-12", "524288000306109956e-12", "100000000042257522e-11", "100000000091085647e-11", "100000000006570603e-11", "100000000055398728e-11",
"104857600035686919e-11", "104857600084515044e-11", "104857600013141206e-11", "104857600061969331e-11", "209715200022545713e-11", "209715200071373838e-11", "209715200026282412e-11", "209715200075110537e-11",
"419430400045091426e-11", "419430400093919551e-11", "419430400003736699e-11", "419430400052564824e-11", "838860800041354727e-11", "838860800090182852e-11", "838860800007473398e-11", "838860800056301523e-11",
"100000000006028926e-10", "100000000015794551e-10", "100000000003736699e-10", "100000000013502324e-10", "167772160002292227e-10", "167772160012057852e-10", "167772160007473398e-10", "167772160017239023e-10",
"335544320004584454e-10", "335544320014350079e-10", "335544320005181171e-10", "335544320014946796e-10", "671088640009168908e-10", "671088640018934533e-10", "671088640000596717e-10", "671088640010362342e-10",
"100000000000678204e-9", "100000000002631329e-9", "100000000001274921e-9", "100000000003228046e-9", "134217728001356408e-9", "134217728003309533e-9", "134217728000596717e-9", "134217728002549842e-9",
"268435456000759691e-9", "268435456002712816e-9", "268435456001193434e-9", "268435456003146559e-9", "536870912001519382e-9", "536870912003472507e-9", "536870912000433743e-9", "536870912002386868e-9",
"100000000000369066e-8", "100000000000759691e-8", "100000000000021559e-8", "100000000000412184e-8", "107374182400347507e-8", "107374182400738132e-8", "107374182400043118e-8", "107374182400433743e-8",
"214748364800304389e-8", "214748364800695014e-8", "214748364800086236e-8", "214748364800476861e-8", "429496729600218153e-8", "429496729600608778e-8", "429496729600172472e-8", "429496729600563097e-8",
"858993459200045681e-8", "858993459200436306e-8", "858993459200344944e-8", "858993459200735569e-8", "100000000000061903e-7", "100000000000140028e-7", "100000000000016222e-7", "100000000000094347e-7",
"171798691840045681e-7", "171798691840123806e-7", "171798691840032444e-7", "171798691840110569e-7", "343597383680013237e-7", "343597383680091362e-7", "343597383680064888e-7", "343597383680143013e-7",
"687194767360026474e-7", "687194767360104599e-7", "687194767360051651e-7", "687194767360129776e-7", "100000000000013237e-6", "100000000000028862e-6", "100000000000002388e-6", "100000000000018013e-6",
"137438953472010849e-6", "137438953472026474e-6", "137438953472004776e-6", "137438953472020401e-6", "274877906944006073e-6", "274877906944021698e-6", "274877906944009552e-6", "274877906944025177e-6",
"549755813888012146e-6", "549755813888027771e-6", "549755813888003479e-6", "549755813888019104e-6", "100000000000002948e-5", "100000000000006073e-5", "100000000000000177e-5", "100000000000003302e-5",
"109951162777602771e-5", "109951162777605896e-5", "109951162777600354e-5", "109951162777603479e-5", "219902325555202417e-5", "219902325555205542e-5", "219902325555200708e-5", "219902325555203833e-5",
"439804651110401709e-5", "439804651110404834e-5", "439804651110401416e-5", "439804651110404541e-5", "879609302220800293e-5", "879609302220803418e-5", "879609302220802832e-5", "879609302220805957e-5",
"100000000000000459e-4", "100000000000001084e-4", "100000000000000166e-4", "100000000000000791e-4", "175921860444160293e-4", "175921860444160918e-4", "175921860444160332e-4", "175921860444160957e-4",
"351843720888320586e-4", "351843720888321211e-4", "351843720888320039e-4", "351843720888320664e-4", "703687441776640547e-4", "703687441776641172e-4", "703687441776640078e-4", "703687441776640703e-4",
"100000000000000086e-3", "100000000000000211e-3", "100000000000000039e-3", "100000000000000164e-3", "140737488355328047e-3", "140737488355328172e-3", "140737488355328078e-3", "140737488355328203e-3",
"281474976710656094e-3", "281474976710656219e-3", "281474976710656031e-3", "281474976710656156e-3", "562949953421312063e-3", "562949953421312188e-3", "562949953421312062e-3", "562949953421312187e-3",
"100000000000000019e-2", "100000000000000044e-2", "100000000000000006e-2", "100000000000000031e-2", "112589990684262413e-2", "112589990684262438e-2", "112589990684262412e-2", "112589990684262437e-2",
"225179981368524825e-2", "225179981368524875e-2", "225179981368524825e-2", "225179981368524875e-2", "450359962737049650e-2", "450359962737049750e-2", "450359962737049650e-2", "450359962737049750e-2",
"900719925474099300e-2", "900719925474099500e-2", "900719925474099300e-2", "900719925474099500e-2", "100000000000000010e-1", "100000000000000030e-1", "100000000000000010e-1", "100000000000000030e-1",
"180143985094819860e-1", "180143985094819900e-1", "180143985094819860e-1", "180143985094819900e-1", "360287970189639720e-1", "360287970189639800e-1", "360287970189639720e-1", "360287970189639800e-1",
"720575940379279440e-1", "720575940379279600e-1", "720575940379279440e-1", "720575940379279600e-1", "100000000000000008e0", "100000000000000024e0", "100000000000000008e0", "100000000000000024e0",
"144115188075855888e0", "144115188075855920e0", "144115188075855888e0", "144115188075855920e0", "288230376151711776e0", "288230376151711840e0", "288230376151711776e0", "288230376151711840e0",
"576460752303423552e0", "576460752303423680e0", "576460752303423552e0", "576460752303423680e0", "100000000000000032e1", "100000000000000096e1", "100000000000000032e1", "100000000000000096e1",
"115292150460684736e1", "115292150460684864e1", "115292150460684736e1", "115292150460684864e1", "230584300921369472e1", "230584300921369728e1", "230584300921369472e1", "230584300921369728e1",
"461168601842738944e1", "461168601842739456e1", "461168601842738944e1", "461168601842739456e1", "922337203685477888e1", "922337203685478912e1", "922337203685477888e1", "922337203685478912e1",
"100000000000000256e2", "100000000000000768e2", "100000000000000256e2", "100000000000000768e2", "184467440737096192e2", "184467440737097216e2", "184467440737096192e2", "184467440737097216e2",
"368934881474192384e2", "368934881474194432e2", "368934881474192384e2", "368934881474194432e2", "737869762948384768e2", "737869762948388864e2", "737869762948384768e2", "737869762948388864e2",
"100000000000001024e3", "100000000000003072e3", "100000000000001024e3", "100000000000003072e3", "147573952589678592e3", "147573952589682688e3", "147573952589678592e3", "147573952589682688e3",
"295147905179357184e3", "295147905179365376e3", "295147905179357184e3", "295147905179365376e3", "590295810358714368e3", "590295810358730752e3", "590295810358714368e3", "590295810358730752e3",
"100000000000004096e4", "100000000000012288e4", "100000000000004096e4", "100000000000012288e4", "118059162071752704e4", "118059162071769088e4", "118059162071752704e4", "118059162071769088e4",
"236118324143505408e4", "236118324143538176e4", "236118324143505408e4", "236118324143538176e4", "472236648287010816e4", "472236648287076352e4", "472236648287010816e4", "472236648287076352e4",
"944473296574021632e4", "944473296574152704e4", "944473296574021632e4", "944473296574152704e4", "100000000000032768e5", "100000000000098304e5", "100000000000032768e5", "100000000000098304e5",
"188894659314909184e5", "188894659315040256e5", "188894659314909184e5", "188894659315040256e5", "377789318629818368e5", "377789318630080512e5", "377789318629818368e5", "377789318630080512e5",
"755578637259636736e5", "755578637260161024e5", "755578637259636736e5", "755578637260161024e5", "100000000000000000e6", "100000000000262144e6", "100000000000000000e6", "100000000000262144e6",
"151115727452241920e6", "151115727452766208e6", "151115727452241920e6", "151115727452766208e6", "302231454904483840e6", "302231454905532416e6", "302231454904483840e6", "302231454905532416e6",
"604462909808967680e6", "604462909811064832e6", "604462909808967680e6", "604462909811064832e6", "100000000000917504e7", "100000000001966080e7", "100000000000917504e7", "100000000001966080e7",
"120892581961793536e7", "120892581963890688e7", "120892581961793536e7", "120892581963890688e7", "241785163923587072e7", "241785163927781376e7", "241785163923587072e7", "241785163927781376e7",
"483570327847174144e7", "483570327855562752e7", "483570327847174144e7", "483570327855562752e7", "967140655694348288e7", "967140655711125504e7", "967140655694348288e7", "967140655711125504e7",
"100000000003538944e8", "100000000011927552e8", "100000000003538944e8", "100000000011927552e8", "193428131145580544e8", "193428131162357760e8", "193428131145580544e8", "193428131162357760e8",
"386856262291161088e8", "386856262324715520e8", "386856262291161088e8", "386856262324715520e8", "773712524582322176e8", "773712524649431040e8", "773712524582322176e8", "773712524649431040e8",
"100000000024510464e9", "100000000058064896e9", "100000000024510464e9", "100000000058064896e9", "154742504929886208e9", "154742504996995072e9", "154742504929886208e9", "154742504996995072e9",
"309485009859772416e9", "309485009993990144e9", "309485009859772416e9", "309485009993990144e9", "618970019719544832e9", "618970019987980288e9", "618970019719544832e9", "618970019987980288e9",
"100000000108396544e10", "100000000242614272e10", "100000000108396544e10", "100000000242614272e10", "123794004104970240e10", "123794004373405696e10", "123794004104970240e10", "123794004373405696e10",
"247588008209940480e10", "247588008746811392e10", "247588008209940480e10", "247588008746811392e10", "495176016419880960e10", "495176017493622784e10", "495176016419880960e10", "495176017493622784e10",
"990352032839761920e10", "990352034987245568e10", "990352032839761920e10", "990352034987245568e10", "100000000041287680e11", "100000001115029504e11", "100000000041287680e11", "100000001115029504e11",
"198070406567952384e11", "198070408715436032e11", "198070406567952384e11", "198070408715436032e11", "396140813135904768e11", "396140817430872064e11", "396140813135904768e11", "396140817430872064e11",
"792281626271809536e11", "792281634861744128e11", "792281626271809536e11", "792281634861744128e11", "100000000578158592e12", "100000004873125888e12", "100000000578158592e12", "100000004873125888e12",
"158456328690335744e12", "158456337280270336e12", "158456328690335744e12", "158456337280270336e12", "316912657380671488e12", "316912674560540672e12", "316912657380671488e12", "316912674560540672e12",
"633825314761342976e12", "633825349121081344e12", "633825314761342976e12", "633825349121081344e12", "100000007020609536e13", "100000024200478720e13", "100000007020609536e13", "100000024200478720e13",
"126765083568111616e13", "126765117927849984e13", "126765083568111616e13", "126765117927849984e13", "253530167136223232e13", "253530235855699968e13", "253530167136223232e13", "253530235855699968e13",
"507060334272446464e13", "507060471711399936e13", "507060334272446464e13", "507060471711399936e13", "100000067150151680e14", "100000135869628416e14", "100000067150151680e14", "100000135869628416e14",
"101412149317861376e14", "101412286756814848e14", "101412149317861376e14", "101412286756814848e14", "202824298635722752e14", "202824573513629696e14", "202824298635722752e14", "202824573513629696e14",
"405648597271445504e14", "405649147027259392e14", "405648597271445504e14", "405649147027259392e14", "811297194542891008e14", "811298294054518784e14", "811297194542891008e14", "811298294054518784e14",
"100000307668320256e15", "100000857424134144e15", "100000307668320256e15", "100000857424134144e15", "162259878713229312e15", "162260978224857088e15", "162259878713229312e15", "162260978224857088e15",
"324519757426458624e15", "324521956449714176e15", "324519757426458624e15", "324521956449714176e15", "649039514852917248e15", "649043912899428352e15", "649039514852917248e15", "649043912899428352e15",
"100001682057854976e16", "100003881081110528e16", "100001682057854976e16", "100003881081110528e16", "129810541798490112e16", "129814939845001216e16", "129810541798490112e16", "129814939845001216e16",
"259621083596980224e16", "259629879690002432e16", "259621083596980224e16", "259629879690002432e16", "519242167193960448e16", "519259759380004864e16", "519242167193960448e16", "519259759380004864e16",
"100007179615993856e17", "100015975709016064e17", "100007179615993856e17", "100015975709016064e17", "103855470313209856e17", "103873062499254272e17", "103855470313209856e17", "103873062499254272e17",
"207710940626419712e17", "207746124998508544e17", "207710940626419712e17", "207746124998508544e17", "415421881252839424e17", "415492249997017088e17", "415421881252839424e17", "415492249997017088e17",
"830843762505678848e17", "830984499994034176e17", "830843762505678848e17", "830984499994034176e17", "100029169848549376e18", "100099538592727040e18", "100029169848549376e18", "100099538592727040e18",
"166281342491820032e18", "166422079980175360e18", "166281342491820032e18", "166422079980175360e18", "332562684983640064e18", "332844159960350720e18", "332562684983640064e18", "332844159960350720e18",
"665125369967280128e18", "665688319920701440e18", "665125369967280128e18", "665688319920701440e18", "100064354220638208e19", "100345829197348864e19", "100064354220638208e19", "100345829197348864e19",
"133137663984140288e19", "133700613937561600e19", "133137663984140288e19", "133700613937561600e19", "266275327968280576e19", "267401227875123200e19", "266275327968280576e19", "267401227875123200e19",
"532550655936561152e19", "534802455750246400e19", "532550655936561152e19", "534802455750246400e19", "100768041662414848e20", "101893941569257472e20", "100768041662414848e20", "101893941569257472e20",
"106960491150049280e20", "109212290963734528e20", "106960491150049280e20", "109212290963734528e20", "213920982300098560e20", "218424581927469056e20", "213920982300098560e20", "218424581927469056e20",
"427841964600197120e20", "436849163854938112e20", "427841964600197120e20", "436849163854938112e20", "855683929200394240e20", "873698327709876224e20", "855683929200394240e20", "873698327709876224e20",
"103582791429521408e21", "112589990684262400e21", "103582791429521408e21", "112589990684262400e21", "171136785840078848e21", "189151184349560832e21", "171136785840078848e21", "189151184349560832e21",
"342273571680157696e21", "378302368699121664e21", "342273571680157696e21", "378302368699121664e21", "684547143360315392e21", "756604737398243328e21", "684547143360315392e21", "756604737398243328e21",
"126100789566373888e22", "126100789566373888e22", "180143985094819840e22", "252201579132747776e22", "180143985094819840e22", "252201579132747776e22", "360287970189639680e22", "504403158265495552e22",
"360287970189639680e22", "504403158265495552e22", "720575940379279360e22", "720575940379279360e22", "144115188075855872e23", "144115188075855872e23", "288230376151711744e23", "288230376151711744e23",
"576460752303423488e23", "576460752303423488e23", "804428711097856027e23", "924953545812414437e23", "276177892680255903e24", "552355785360511806e24", "780323744154944345e24", "156064748830988869e25",
"324387826566079267e25", "312129497661977738e25", "636517324228057005e25", "648775653132158534e25", "624258995323955476e25", "127303464845611401e26", "254606929691222802e26", "509213859382445604e26",
"353998035786891617e27", "664429682977999591e27", "707996071573783234e27", "274485150910356565e28", "505403913224929487e28", "548970301820713130e28", "109794060364142626e29", "219588120728285252e29",
"439176241456570504e29", "702330750780639399e29", "878352482913141008e29", "597068947051011841e30", "442450811214309151e31", "884901622428618302e31", "857292215047934029e34", "576803537329514467e35",
"741604547995090029e35", "415704532009629913e38", "831409064019259826e38", "961935638846030711e38", "981206787405734579e42", "213211447199186295e43", "597209117302460437e43", "426422894398372590e43",
"852845788796745180e43", "170569157759349036e44", "341138315518698072e44", "682276631037396144e44", "989778658322649793e45", "908009653867636885e46", "181601930773527377e47", "363203861547054754e47",
"290627270046877921e47", "726407723094109508e47", "581254540093755842e47", "392298678956359605e48", "784597357912719210e48", "156919471582543842e49", "313838943165087684e49", "627677886330175368e49",
"321632503382227337e51", "643265006764454674e51", "452922863320889263e52", "905845726641778526e52", "485377378242246581e54", "970754756484493162e54", "292419605391991415e56", "584839210783982830e56",
"116967842156796566e57", "233935684313593132e57", "467871368627186264e57", "935742737254372528e57", "509070398135729259e58", "799306432776769155e64", "844981086078298821e64", "159861286555353831e65",
"205535939856883497e65", "319722573110707662e65", "411071879713766994e65", "639445146221415324e65", "822143759427533988e65", "508040598114860407e66", "390721481432482297e68", "781442962864964594e68",
"826510177854146491e69", "273463351544865851e70", "546926703089731702e70", "459852334721142377e70", "832630301073695429e70", "919704669442284754e70", "514161268858903945e75", "569888864614801113e75",
"102832253771780789e76", "205664507543561578e76", "411329015087123156e76", "822658030174246312e76", "963972004221897175e76", "192794400844379435e77", "385588801688758870e77", "771177603377517740e77",
"154235520675503548e78", "484173886501371063e78", "308471041351007096e78", "968347773002742126e78", "616942082702014192e78", "792644927852378159e79", "969140622873038249e80", "412048506503989263e81",
"824097013007978526e81", "518850465159561079e82", "531069482564530921e83", "308866475614742679e84", "617732951229485358e84", "363082290928676201e85", "726164581857352402e85", "962808227956268243e87",
"267731669290002661e90", "535463338580005322e90", "240834995408375405e91", "481669990816750810e91", "963339981633501620e91", "192667996326700324e92", "385335992653400648e92", "770671985306801296e92",
"715698482161110911e93", "583762074611453987e95", "910039566247649791e96", "752011406128796421e97", "679848517493960983e102", "759451185354630243e103", "316832529406745489e104", "633665058813490978e104",
"823133319643165651e104", "367146980023201195e105", "734293960046402390e105", "146858792009280478e106", "293717584018560956e106", "587435168037121912e106", "212163613853829921e108", "424327227707659842e108",
"600813988089222235e108", "848654455415319684e108", "120162797617844447e109", "240325595235688894e109", "480651190471377788e109", "784815620561193183e109", "961302380942755576e109", "419818304453414709e110",
"663149848525267025e110", "839636608906829418e110", "132629969705053405e111", "265259939410106810e111", "530519878820213620e111", "441746699791669203e111", "883493399583338406e111", "972266578611882823e111",
"106103975764042724e112", "212207951528085448e112", "424415903056170896e112", "848831806112341792e112", "272404177639411421e113", "544808355278822842e113", "880451079306449321e113", "822080245361256799e114",
"965129949484264003e118", "566016730858297363e119", "531184383455442405e120", "106236876691088481e121", "212473753382176962e121", "424947506764353924e121", "849895013528707848e121", "729029264083467941e122",
"832065776479085235e124", "166413155295817047e125", "332826310591634094e125", "665652621183268188e125", "775028880718707255e126", "155005776143741451e127", "310011552287482902e127", "620023104574965804e127",
"920863893432626011e127", "304509094229589285e128", "609018188459178570e128", "928200504176484167e128", "121803637691835714e129", "243607275383671428e129", "487214550767342856e129", "974429101534685712e129",
"454251817581540083e131", "908503635163080166e131", "673579136324922031e133", "986296176153658035e133", "197259235230731607e134", "435419185777826819e134", "394518470461463214e134", "870838371555653638e134",
"789036940922926428e134", "829937656239290033e134", "330339033883061469e136", "660678067766122938e136", "482106990788140587e137", "964213981576281174e137", "299261381419458423e139", "598522762838916846e139",
"276900026654235221e140", "553800053308470442e140", "328359664443784281e141", "534198215601980521e141", "656719328887568562e141", "945875317918373001e141", "741054984027471321e145", "777204007638567483e145",
"162670606249932729e146", "198819629861028891e146", "325341212499865458e146", "397639259722057782e146", "650682424999730916e146", "795278519444115564e146", "108447070833288486e147", "216894141666576972e147",
"433788283333153944e147", "867576566666307888e147", "566980402305745693e148", "589788353249331491e149", "794153385588434125e152", "991849887552726701e152", "158830677117686825e153", "317661354235373650e153",
"635322708470747300e153", "127064541694149460e154", "254129083388298920e154", "508258166776597840e154", "638872553182281493e154", "101651633355319568e155", "203303266710639136e155", "406606533421278272e155",
"813213066842556544e155", "242655719197065511e158", "403953240047806587e158", "485311438394131022e158", "807906480095613174e158", "889264678441937609e158", "970622876788262044e158", "206957595953226015e164",
"413915191906452030e164", "827830383812904060e164", "165566076762580812e165", "331132153525161624e165", "662264307050323248e165", "200252664722760203e167", "400505329445520406e167", "801010658891040812e167",
"538965963001340669e168", "713662426927807431e168", "551813542200586537e172", "928273569842944939e172", "721576434127368575e174", "144315286825473715e175", "288630573650947430e175", "869924196131733497e175",
"577261147301894860e175", "115452229460378972e176", "230904458920757944e176", "461808917841515888e176", "923617835683031776e176", "310914524507244983e178", "621829049014489966e178", "542970105271662201e180",
"290621485294613353e181", "581242970589226706e181", "667910701602747289e182", "333446727871265297e185", "666893455742530594e185", "890398837084682425e186", "178079767416936485e187", "356159534833872970e187",
"929167076892018333e187", "712319069667745940e187", "142463813933549188e188", "284927627867098376e188", "786703262958469145e188", "569855255734196752e188", "157340652591693829e189", "314681305183387658e189",
"629362610366775316e189", "846210617591047709e189", "648606319615754607e191", "248025482434051773e192", "496050964868103546e192", "680429695511221511e192", "992101929736207092e192", "754181187768468697e193",
"944517781342659413e194", "996852469070058427e195", "915525222553119719e198", "272104041512242479e200", "544208083024484958e200", "408642933774563725e206", "817285867549127450e206", "163457173509825490e207",
"326914347019650980e207", "534360276988483221e207", "653828694039301960e207", "949252136926147703e207", "130765738807860392e208", "261531477615720784e208", "403594538180622829e208", "523062955231441568e208",
"807189076361245658e208", "460419762406583647e209", "920839524813167294e209", "233118865502740375e210", "466237731005480750e210", "932475462010961500e210", "186495092402192300e211", "372990184804384600e211",
"745980369608769200e211", "149196073921753840e212", "298392147843507680e212", "596784295687015360e212", "119356859137403072e213", "238713718274806144e213", "477427436549612288e213", "681274574976145597e213",
"954854873099224576e213", "231740402305151577e214", "463480804610303154e214", "926961609220606308e214", "411554071373549185e215", "619261004320565061e215", "823108142747098370e215", "164621628549419674e216",
"329243257098839348e216", "533090395525372657e216", "658486514197678696e216", "815263040771675643e217", "740000266981400501e218", "328630710492940441e219", "657261420985880882e219", "449237122436511711e221",
"668014306299920267e221", "898474244873023422e221", "598940227840405097e223", "801642728804870631e224", "764973628592904611e224", "797975818783674029e225", "768640538614101213e225", "481719019287161699e226",
"963438038574323398e226", "783308178698887621e226", "277297299504467893e227", "734724458884371563e227", "554594599008935786e227", "331052157079446057e229", "662104314158892114e229", "612122514014014207e230",
"503849218734877429e231", "936942399851424541e232", "678113325830284099e233", "613931254715082813e234", "726300599080277201e235", "308975121073410857e236", "617950242146821714e236", "780854953768889557e238",
"587293220070490983e239", "562742268322027237e245", "677866483711831819e245", "882482907197954673e248", "320768012667008639e250", "641536025334017278e250", "663118358105781009e250", "800058496281289957e251",
"699139318849588291e252", "661689617145836973e253", "603424096222726431e255", "837471071840465425e256", "167494214368093085e257", "334988428736186170e257", "433705259366676721e257", "669976857472372340e257",
"867410518733353442e257", "133995371494474468e258", "267990742988948936e258", "535981485977897872e258", "703119760747917897e259", "435698521115885857e260", "871397042231771714e260", "665284588230780675e261",
"133056917646156135e262", "266113835292312270e262", "532227670584624540e262", "106445534116924908e263", "212891068233849816e263", "425782136467699632e263", "939765811297299473e263", "851564272935399264e263",
"795241360131339461e265", "211521156318441203e267", "423042312636882406e267", "383997319672690085e267", "846084625273764812e267", "767994639345380170e267", "807039632309572491e267", "153598927869076034e268",
"346242848702344389e268", "307197855738152068e268", "692485697404688778e268", "614395711476304136e268", "807473247699504957e271", "238296178309629163e273", "476592356619258326e273", "953184713238516652e273",
"656192142163199321e278", "879216434457803817e280", "570299568735168627e282", "899810892172646163e283", "704329383163507867e287", "852046039838712095e287", "925904368176314209e287", "170409207967742419e288",
"340818415935484838e288", "681636831870969676e288", "361481542008116951e290", "722963084016233902e290", "929963218616126365e290", "185992643723225273e291", "2470328229206232719e-342", "2470328229206232720e-342",
"2470328229206232722e-342", "7410984687618698164e-342", "7410984687618698162e-342", "2717361052126855993e-341", "5187689281333088714e-341", "6175820573015581802e-341", "8646148802221814523e-341", "1655119913568175923e-340",
"2840877463587167629e-340", "6151117290723519475e-340", "6743996065733015328e-340", "2354222802433539783e-339", "4814669718722947573e-339", "8505340093157059258e-339", "3760580663320648071e-338", "3022446588433825734e-338",
"4252670046578529629e-338", "1757267985845853646e-337", "3915198507186666177e-337", "6874454099517396478e-337", "8231059549868291239e-337", "1038899007120910377e-336", "3196829528461722908e-336", "5354760049802535439e-336",
"7432558064044356193e-336", "2253807171343004391e-335", "4603490992688200642e-335", "6953174814033396893e-335", "8455712928262066487e-335", "2301745496344100321e-334", "6134792101917527794e-334", "6905236489032300963e-334",
"8446125263261847301e-334", "2608964484689987670e-333", "4910709981034087991e-333", "9514200973722288633e-333", "7826893454069963010e-333", "4128020635627091690e-332", "4649813532565089224e-332", "8516937719723182147e-332",
"9560523513599177215e-332", "3150510893407962950e-331", "5888219723253216731e-331", "7539427977504053407e-331", "1575255446703981475e-330", "5138568403674653594e-330", "6398772761037838774e-330", "2884335291178123092e-329",
"2947345509046282351e-329", "3073365944782600869e-329", "8968056962875165571e-329", "9094077398611484089e-329", "2107249008840109127e-328", "3913462444988774093e-328", "7525889317286104025e-328", "6586378020155811200e-327",
"8693627028995920327e-327", "2577984551429631682e-326", "4854933530167819203e-326", "5457004675550707525e-326", "9709867060335638406e-326", "2182801870220283010e-325", "8355011004419264453e-325", "1746241496176226408e-324",
"3492482992352452816e-324", "6428069773106221457e-324", "6984965984704905632e-324", "3784561969809006239e-323", "5398394848914167271e-323", "5843911818193114611e-323", "9517094545682384015e-323", "3806837818272953606e-322",
"5621153333553640941e-322", "7613675636545907212e-322", "6168672751954336939e-321", "2534882099286578593e-320", "7614965542072503131e-320", "5069764198573157186e-320", "9781824916196560581e-320", "3260608305398853527e-319",
"3769648574098722716e-319", "7539297148197445432e-319", "1029086518489642977e-318", "5470118130128254879e-318", "5492130092308064077e-318", "9586464204086826787e-318", "4105340092868667309e-317", "8210680185737334618e-317",
"6236595027211604838e-316", "8307094035369355597e-316", "4657326900391021014e-315", "6486393468336580399e-315", "8146139075227894681e-315", "1097439940767335631e-314", "2828260332445461629e-314", "3024752684980328403e-314",
"8779519526138685048e-314", "6049505369960656806e-314", "9948034251692832395e-314", "3238806394837671195e-313", "6477612789675342390e-313", "7958427401354265916e-313", "1318684064653050359e-312", "2591045115870136956e-312",
"2544722102434173194e-312", "5274736258612201436e-312", "7935265894636284035e-312", "7749973840892428987e-312", "2614206622588118837e-311", "5228413245176237674e-311", "3846790754981153273e-310", "7693581509962306546e-310",
"8740873588611485934e-310", "1322007147074264415e-309", "1964883872640494081e-309", "6371574362888042131e-309", "8134250558987061351e-309", "1057605717659411532e-308", "2493686731470199847e-308", "4608898166789022911e-308",
"8460845741275292256e-308", "8839321037426669039e-308", "9596271629729422605e-308", "3460033355740392259e-307", "4739536239704315273e-307", "5496486832007068839e-307", "9479072479408630546e-307", "4361060943552938490e-306",
"5554117630210985905e-306", "8722121887105876980e-306", "1110823526042197181e-305", "2221647052084394362e-305", "4443294104168788724e-305", "6977697509684701584e-305", "8886588208337577448e-305", "3966071429505569758e-304",
"6933210500024756175e-304", "4935345782051989493e-304", "8871759205117595645e-304", "1386642100004951235e-303", "1774351841023519129e-303", "6545500759006188281e-303", "4547636041033421599e-303", "8096339723080459857e-303",
"2218627360007921976e-302", "4437254720015843952e-302", "5436187079002227293e-302", "8317102365115615151e-302", "8735451291016773306e-301", "9050884657888529267e-300", "7311492709224842831e-299", "2343935978206228349e-298",
"4687871956412456698e-298", "9120805851540068713e-298", "3546347116102089612e-297", "6327880048349645175e-297", "8854474919312356055e-297", "1265576009669929035e-296", "2531152019339858070e-296", "4302047003202329281e-296",
"8362827390251255449e-296", "8604094006404658562e-296", "2024921615471886456e-295", "4049843230943772912e-295", "8611385443808094066e-295", "8099686461887545824e-295", "3342214381139127978e-294", "6684428762278255956e-294",
"9770793652457109813e-294", "3941352659867176181e-293", "4627930235402724345e-293", "6509550168663256034e-293", "7030951749777142919e-293", "1851172094161089738e-292", "3702344188322179476e-292", "7196127744198804198e-292",
"7404688376644358952e-292", "9942438046340996854e-292", "3406857094863404735e-291", "6813714189726809470e-291", "6535580951477592119e-291", "9733877413895442100e-291", "9177610937397007398e-291", "1946775482779088420e-290",
"3893550965558176840e-290", "6897169879698117979e-290", "8677033982534589381e-290", "3114840772446541472e-289", "6229681544893082944e-289", "6852618262389304631e-289", "2153689007320377629e-288", "4307378014640755258e-288",
"6158461831185154802e-288", "8614756029281510516e-288", "1690918053184277743e-287", "3381836106368555486e-287", "6763672212737110972e-287", "2382934749277881067e-286", "4765869498555762134e-286", "5539804583910026125e-286",
"9790941030616678776e-286", "2215921833564010450e-285", "6930685128450981589e-285", "5642016991247608115e-285", "8706697708088469282e-285", "1772737466851208360e-284", "2256806796499043246e-284", "3545474933702416720e-284",
"4513613592998086492e-284", "7090949867404833440e-284", "9027227185996172984e-284", "1418189973480966688e-283", "2836379946961933376e-283", "4980673914914652393e-283", "7609037212515206296e-283", "1660224638304884131e-282",
"3569287544526193299e-282", "6640898553219536524e-282", "7138575089052386598e-282", "8273908779154390279e-282", "9269261850820090427e-282", "8118381224613298851e-281", "4671958120434839281e-280", "8603620211562318609e-280",
"5088761491776186062e-280", "2016842454035407703e-279", "4033684908070815406e-279", "7327073786834270859e-279", "4663246016866836812e-279", "9326492033733673624e-279", "4203891098034555106e-278", "8348310926616709059e-278",
"8467253465521511365e-278", "1693450693104302273e-277", "4535692271428939779e-277", "6773802772417209092e-277", "1584518731527508865e-276", "5189284040889700227e-276", "1267614985222007092e-275", "4159317255671036853e-275",
"7407491826125082191e-275", "2546313903036003267e-273", "7274484635021213195e-273", "6550456102419192958e-273", "9461227079541992831e-273", "2181856828949206661e-272", "4363713657898413322e-272", "3639685125296393085e-272",
"7279370250592786170e-272", "1455874050118557234e-271", "2911748100237114468e-271", "6544397939110442469e-271", "5823496200474228936e-271", "1746423501349107340e-270", "3492847002698214680e-270", "4947157655833868562e-270",
"9745132093595203691e-270", "1397138801079285872e-269", "4683630733648599109e-269", "9367261467297198218e-269", "1752140686554744141e-268", "4592155770358410293e-268", "7008562746218976564e-268", "4326449254636081441e-267",
"8652898509272162882e-267", "6477149714774318860e-267", "1295429942954863772e-266", "5854483077656493577e-266", "4508956465982416599e-266", "9017912931964833198e-266", "2207240569895189733e-265", "5087244445627417955e-265",
"8828962279580758932e-265", "7483435667906681954e-265", "1017448889125483591e-264", "2488942602388943413e-264", "4305121898940848337e-264", "6558738158890877777e-264", "8610243797881696674e-264", "2396140694272565961e-262",
"5657291654910866001e-262", "6101371762604931203e-262", "6078221813582534878e-262", "3483191014485332641e-261", "5231731506434717859e-261", "5213211547216800799e-261", "1740206510301322541e-260", "5222471526825759329e-260",
"5207655559451425681e-260", "8676956604523320527e-260", "3129038125883155503e-258", "6258076251766311006e-258", "3801307368964682111e-257", "4450504049375922993e-257", "5933477911560690565e-257", "7973358203475556115e-257",
"1186695582312138113e-256", "2373391164624276226e-256", "3189343281390222446e-256", "8789310320241502335e-256", "7082940901036047461e-256", "3515724128096600934e-255", "5021670531112085347e-255", "6630602223813260946e-255",
"3134365641017515867e-254", "4982695440510373637e-254", "8356459188319571675e-254", "1671291837663914335e-253", "3342583675327828670e-253", "6685167350655657340e-253", "2481438942192634817e-252", "4962877884385269634e-252",
"5348133880524525872e-252", "6866432832369020094e-252", "1525116461658253441e-251", "3818472412323766285e-251", "4582166894788519542e-251", "7636944824647532570e-251", "6100465846633013764e-251", "9164333789577039084e-251",
"1984696653099857239e-250", "3969393306199714478e-250", "7938786612399428956e-250", "2533465878904278109e-249", "3265158179976839269e-249", "5405320733495150847e-249", "6530316359953678538e-249", "3603547155663433898e-248",
"5990674574353199775e-248", "4774254837379531754e-248", "9548509674759063508e-248", "2396269829741279910e-247", "4792539659482559820e-247", "7298518421842008126e-247", "8295520293579339355e-247", "2174927668870179985e-246",
"3834031727586047856e-246", "3318208117431735742e-246", "8699710675480719940e-246", "1739942135096143988e-245", "3576119922508891799e-245", "6959768540384575952e-245", "4800238447450723673e-245", "9215534285635032054e-245",
"2352001397567059925e-244", "4704002795134119850e-244", "7804333447094796099e-244", "7248475497334387421e-244", "1881601118053647940e-243", "3763202236107295880e-243", "7526404472214591760e-243", "6872155273723657833e-243",
"1505280894442918352e-242", "6021123577771673408e-242", "5026461700899945711e-242", "9685934565148444039e-242", "1675487233633315237e-241", "3350974467266630474e-241", "5612628363714720884e-241", "8691272688276716342e-241",
"2716313863564868909e-240", "3440974785559122007e-240", "9958264707853079055e-240", "7788940317524640595e-240", "1557788063504928119e-239", "3115576127009856238e-239", "7966611766282463244e-239", "6231152254019712476e-239",
"2918473581618568443e-238", "4338249983648786015e-238", "5521264053004603690e-238", "7177802787709221159e-238", "9543830926420856509e-238", "1735299993459514406e-237", "3470599986919028812e-237", "4417011242403682952e-237",
"5915708421992033823e-237", "1971902807330677941e-236", "3943805614661355882e-236", "5079499121242940850e-236", "9938594333014759366e-236", "2031799648497176340e-235", "4063599296994352680e-235", "8016996639253144193e-235",
"1625439718797741072e-234", "6021604390572243815e-234", "1204320878114448763e-233", "2408641756228897526e-233", "6753640117203267266e-233", "4817283512457795052e-233", "9634567024915590104e-233", "2507820386406759685e-232",
"6364794929627113791e-232", "1003128154562703874e-231", "2663358461437221075e-231", "5326716922874442150e-231", "8025025236501630992e-231", "1065343384574888430e-230", "3853132306036478617e-230", "7706264612072957234e-230",
"1704549415319821488e-229", "3409098830639642976e-229", "6409956429016210849e-229", "2482334325153869319e-228", "4964668650307738638e-228", "9521096068352402173e-228", "2230812199480940517e-227", "4461624398961881034e-227",
"8106766333397611862e-227", "3406003026264274786e-226", "6812006052528549572e-226", "9261453446107000190e-226", "8713139045684251125e-226", "1961953569305949851e-225", "3704581378442800076e-225", "3814244258527349889e-225",
"3485255618273700450e-225", "7518825636970149965e-225", "6860848356462851087e-225", "1613428007478579806e-224", "3007530254788059986e-224", "2678541614534410547e-224", "6015060509576119972e-224", "5357083229068821094e-224",
"1115281797847584144e-223", "2230563595695168288e-223", "7349668067592803742e-223", "8922254382780673152e-223", "3140991010589728363e-222", "6281982021179456726e-222", "6534432155566717923e-222", "1055272620683284479e-221",
"1709133998218557317e-221", "3418267996437114634e-221", "8040769722318264191e-221", "6836535992874229268e-221", "1527871695834050510e-220", "4743343260804154095e-220", "9486686521608308190e-220", "1897337304321661638e-219",
"2444594713334480816e-219", "4889189426668961632e-219", "7607412844509852037e-219", "2780715108531144541e-216", "4176491750963678457e-216", "6953594134050181901e-216", "4169266300074396263e-215", "3061315527195507763e-215",
"8338532600148792526e-215", "7522020422268190539e-215", "2728930295331841213e-214", "7230581827269904026e-214", "9889663682179236426e-214", "2640294233501530133e-213", "4413015470107751733e-213", "6698765456288037546e-213",
"8826030940215503466e-213", "9693603937110811999e-213", "4838468566893244917e-212", "9676937133786489834e-212", "2562718662707552403e-211", "5125437325415104806e-211", "7127551913738395163e-211", "1708479108471701602e-210",
"3416958216943403204e-210", "6833916433886806408e-210", "5301618613326058059e-210", "7538641585530619420e-210", "1507728317106123884e-209", "3015456634212247768e-209", "6574438546550910939e-209", "6030913268424495536e-209",
"2521070362995081295e-208", "5585666004116577993e-208", "5042140725990162590e-208", "9540756173853909777e-208", "2932303862179774131e-207", "5864607724359548262e-207", "7151977589800551049e-207", "9354795027025262931e-207",
"4216802095148871891e-206", "9343308497137642823e-206", "2090666422633142769e-205", "4181332845266285538e-205", "7110765074974154642e-205", "8362665690532571076e-205", "2593925906877978570e-204", "5187851813755957140e-204",
"6439752429314373574e-204", "9272369997372470117e-204", "1037570362751191428e-203", "2355234245697860597e-203", "5813802121535165357e-203", "4710468491395721194e-203", "8300562902009531424e-203", "7757416312261042743e-203",
"7197229271870087261e-202", "1173282547089153509e-201", "3169507351725633083e-201", "5516072445903940101e-201", "8563318119165902007e-201", "4042111143073122759e-198", "5358818755148844463e-198", "9400929898221967222e-198",
"3712934240054192333e-197", "3281126633693092763e-197", "8958479895364656155e-197", "8094864682642457015e-197", "1618972936528491403e-196", "3237945873056982806e-196", "7166783916291724924e-196", "6475891746113965612e-196",
"1126834500207090687e-195", "2253669000414181374e-195", "3786280415670452863e-195", "4537503415808513321e-195", "7572560831340905726e-195", "9075006831617026642e-195", "6677126314171263291e-194", "1821034449319435443e-193",
"3642068898638870886e-193", "8935505286007640602e-193", "7284137797277741772e-193", "8886499985338706281e-192", "2041518795264525069e-191", "4083037590529050138e-191", "8166075181058100276e-191", "3981056205706666301e-190",
"7962112411413332602e-190", "5506112966335353039e-190", "1934671541786375581e-189", "3869343083572751162e-189", "5729539210603183317e-189", "5133735892555635909e-189", "9449931464664047627e-189", "3943480649955063889e-188",
"6919794453203755337e-188", "1964258998664574532e-187", "3021201761126435923e-187", "3928517997329149064e-187", "9911070909078361610e-187", "8884053451868329869e-187", "3964428363631344644e-186", "6997600246858512427e-186",
"4943565332438448945e-186", "8764352230861011269e-186", "1977426132975379578e-185", "5001021918521961873e-185", "5893974008203796782e-185", "6863534879330315595e-185", "1372706975866063119e-184", "2745413951732126238e-184",
"7583167208606657910e-184", "6536997556035455193e-184", "2370901139818843015e-183", "4741802279637686030e-183", "4636560205366741043e-183", "9273120410733482086e-183", "1896720911855074412e-182", "3793441823710148824e-182",
"4260189174046637951e-182", "7586883647420297648e-182", "8053630997756786775e-182", "1610726199551357355e-181", "3221452399102714710e-181", "5976157447868940293e-181", "6909652148541918547e-181", "1288580959641085884e-180",
"2577161919282171768e-180", "3794725627129636126e-180", "5154323838564343536e-180", "6371887546411807894e-180", "9699865823204954893e-180", "2305242276995230286e-179", "4610484553990460572e-179", "9569980684505256463e-179",
"1165609652367584986e-178", "4662438609470339944e-178", "9673888795465015207e-178", "3799753202881139019e-177", "7599506405762278038e-177", "2341023443357753035e-176", "4682046886715506070e-176", "9364093773431012140e-176",
"1872818754686202428e-175", "3745637509372404856e-175", "5967467840582942603e-175", "7491275018744809712e-175", "1839253166067987234e-174", "3678506332135974468e-174", "4933788801352120025e-174", "9867577602704240050e-174",
"5186145591677016125e-173", "3947031041081696020e-173", "9133176632758712145e-173", "2074458236670806450e-172", "1578812416432678408e-172", "4148916473341612900e-172", "3157624832865356816e-172", "8297832946683225800e-172",
"6315249665730713632e-172", "1659566589336645160e-171", "4396739383460676921e-171", "6638266357346580640e-171", "2655306542938632256e-170", "4233006881089877911e-170", "8466013762179755822e-170", "2339766475308383125e-169",
"4679532950616766250e-169", "8281459696446145899e-169", "1871813180246706500e-168", "3743626360493413000e-168", "6976444974855572803e-168", "8508868213249332394e-168", "1497450544197365200e-167", "3505708834525983597e-167",
"6500609922920713997e-167", "1197960435357892160e-166", "2906728616847037517e-166", "4045907404506467755e-166", "9583683482863137280e-166", "8837749145938036395e-166", "1618362961802587102e-165", "3833473393145254912e-165",
"3535099658375214558e-165", "6473451847210348408e-165", "5456374870834368983e-164", "7210309152362395355e-164", "1442061830472479071e-163", "5393069311171139337e-163", "5768247321889916284e-163", "7147003592699165709e-163",
"6572972068866534638e-162", "6595501084375465939e-162", "1610231019246542225e-161", "3220462038493084450e-161", "6727549076255831677e-161", "6154299077716506123e-161", "9065607101430996495e-161", "8492357102891670941e-161",
"1813121420286199299e-160", "3626242840572398598e-160", "5152739261588935120e-160", "8778982102161333718e-160", "2061095704635574048e-159", "4122191409271148096e-159", "6946535324414990405e-159", "2778614129765996162e-158",
"6489237470636528935e-158", "8152923247786603898e-158", "1297847494127305787e-157", "3074767456893734237e-157", "4259380765404686537e-157", "8492625804635664359e-157", "3775081151530822131e-156", "5660008154678862325e-156",
"5680916735617829297e-156", "1132001630935772465e-155", "4528006523743089860e-155", "9056013047486179720e-155", "9803711274463705706e-155", "3248556105505708895e-154", "5059758715002944839e-154", "8682163933997416727e-154",
"2598844884404567116e-153", "5197689768809134232e-153", "7520672545601322562e-153", "8203088250625559993e-152", "5694216273332835497e-151", "8330808047286614389e-151", "2215559048528501179e-150", "4431118097057002358e-150",
"8711792396187681605e-150", "8862236194114004716e-150", "1742358479237536321e-149", "3484716958475072642e-149", "6969433916950145284e-149", "7119877714876468395e-149", "9934842195939304247e-149", "2847951085950587358e-148",
"6316174741981784247e-148", "8628323846002582173e-148", "7387778705841363111e-148", "7086891109988716889e-147", "8929211441855228395e-147", "1785842288371045679e-146", "3571684576742091358e-146", "6613264271322415595e-146",
"2645305708528966238e-145", "5290611417057932476e-145", "8466022007748665835e-145", "3813623930196801651e-144", "7627247860393603302e-144", "6772817606198932668e-144", "1440006546659253597e-143", "2880013093318507194e-143",
"7964845000247576062e-143", "9921684661247527533e-143", "2744974237376918090e-142", "6052202457792760601e-142", "8257021271403322275e-142", "1097989694950767236e-141", "2195979389901534472e-141", "3302808508561328910e-141",
"4936533915423938961e-141", "6061041881501787803e-141", "9328492695227007905e-141", "1205136837333135799e-140", "1865698539045401581e-140", "2410273674666271598e-140", "3731397078090803162e-140", "5284493613698126256e-140",
"5365122484953413213e-140", "1912093165481959887e-139", "3001243436723699921e-139", "7648372661927839548e-139", "6002486873447399842e-139", "8551944427423346358e-139", "1184371600438422577e-138", "2368743200876845154e-138",
"3091600613273250602e-138", "4737486401753690308e-138", "4818115273008977265e-138", "8109886849969856677e-138", "8271144592480430591e-138", "1927246109203590906e-137", "4336023502817961822e-137", "3854492218407181812e-137",
"8672047005635923644e-137", "6825429767687619695e-137", "1365085953537523939e-136", "6921736024569775697e-136", "5460343814150095756e-136", "1599580641492166326e-135", "5983757272751206149e-135", "6260134134896178919e-135",
"9182918555735538801e-135", "9735672280025484341e-135", "3226798969198829929e-134", "8906541693590566031e-134", "9348744673022522463e-134", "3916379060981791558e-133", "6369322816174697731e-133", "9569846162738500679e-133",
"2262655795780799975e-131", "4924921836557557245e-131", "5909906203869068694e-131", "7480264693496134297e-131", "1969968734623022898e-130", "3939937469246045796e-130", "6149672350866643071e-130", "5510295958873111399e-130",
"9929765722114305949e-130", "1448099709299711984e-129", "2896199418599423968e-129", "5829984154869877235e-129", "5792398837198847936e-129", "7033566303514881981e-129", "6920810350501794084e-129", "1165996830973975447e-128",
"4663987323895901788e-128", "9327974647791803576e-128", "7417277337028207702e-128", "2584771472658563906e-127", "5169542945317127812e-127", "9252804012449744978e-127", "5338307641409225755e-126", "6424589519593736401e-126",
"8822172870752221617e-126", "2135323056563690302e-125", "4270646113127380604e-125", "6930489758880660734e-125", "2933276150289674341e-124", "5866552300579348682e-124", "5637808635809351659e-124", "2623032680752560163e-123",
"5246065361505120326e-123", "1012230213378459689e-122", "4048920853513838756e-122", "8097841707027677512e-122", "9719329411230037277e-122", "5330934000747335965e-121", "1066186800149467193e-120", "2132373600298934386e-120",
"4264747200597868772e-120", "8529494401195737544e-120", "1934536464483202322e-119", "4308582094271987090e-119", "5232015432839469933e-119", "6814712519365326445e-119", "1362942503873065289e-118", "2725885007746130578e-118",
"5451770015492261156e-118", "7817164689402662187e-118", "2365394673910401031e-117", "5861633885098459043e-117", "9461578695641604124e-117", "6069045083808633181e-116", "8187529730392485402e-116", "6859157171253589373e-115",
"2219225292884258763e-114", "5581154935264896615e-114", "6254713293451150121e-114", "1116230987052979323e-113", "2232461974105958646e-113", "2958967057179011684e-113", "4464923948211917292e-113", "5554681572821496849e-113",
"7840090271814255027e-113", "1038285806256994066e-112", "2076571612513988132e-112", "4153143225027976264e-112", "8306286450055952528e-112", "9601931348075874049e-112", "3789890683491449745e-111", "7579781366982899490e-111",
"9095737640379479388e-111", "1515956273396579898e-110", "3031912546793159796e-110", "5621627433017440387e-110", "4267359162918135123e-108", "7097424190558962035e-108", "9219972961289582219e-108", "2838969676223584814e-107",
"5677939352447169628e-107", "7822749744634684567e-107", "1276200657013199481e-106", "4124074981819542197e-106", "4254002190043998270e-106", "8248149963639084394e-106", "8508004380087996540e-106", "3403201752035198616e-105",
"4974875419828341851e-105", "6806403504070397232e-105", "2104787997932844899e-104", "5603544886945599145e-104", "6724253864334718974e-104", "8419151991731379596e-104", "2241417954778239658e-103", "4482835909556479316e-103",
"4603207604083179826e-103", "9025857666376308887e-103", "9146229360903009397e-103", "6021250834068429275e-102", "6117548189689789683e-102", "2408500333627371710e-101", "3684973517157077871e-101", "8309379473169100475e-101",
"7369947034314155742e-101", "1661875894633820095e-100", "2191724639169974641e-100", "3323751789267640190e-100", "4383449278339949282e-100", "6647503578535280380e-100", "5708071139680335647e-100", "1329500715707056076e-99",
"2659001431414112152e-99", "5318002862828224304e-99", "5178222395144181101e-99", "8896921315630602345e-99", "1779384263126120469e-98", "6297735154783443243e-98", "8216899885593606915e-98", "7117537052504481876e-98",
"1643379977118721383e-97", "3650696777482721701e-97", "6937456731720164467e-97", "7665330378210722337e-97", "4746283428895202623e-96", "5328582346087648919e-96", "9492566857790405246e-96", "2818655111477499259e-95",
"4600708699597091049e-95", "8164815875836274629e-95", "2462244393853580901e-94", "4924488787707161802e-94", "5183007616789537345e-94", "5961090311065069271e-94", "1036601523357907469e-93", "3887887264349254333e-93",
"4146406093431629876e-93", "6065508325509381607e-93", "4872279780485005634e-93", "9744559560970011268e-93", "9672982675076035811e-92", "4613760951402630091e-91", "4938298923480275834e-91", "9227521902805260182e-91",
"9552059874882905925e-91", "2590072261933267803e-90", "5180144523866535606e-90", "4598468780001932525e-90", "9196937560003865050e-90", "1839387512000773010e-89", "4882566631905165225e-89", "6113318319925059792e-89",
"7357550048003092040e-89", "1953026652762066090e-88", "1712268331181342249e-88", "2943020019201236816e-88", "7812106611048264360e-88", "6849073324725368996e-88", "2102873661733755467e-87", "3124842644419305744e-87",
"5168780609790406298e-87", "5709232949314508893e-87", "8951946986459124463e-87", "4070170207089432727e-85", "8140340414178865454e-85", "7096703308424407259e-85", "4502532078708714803e-84", "6649434407487626385e-84",
"5814524722884059829e-84", "1329886881497525277e-83", "2355629749929803221e-83", "3268061789125545220e-83", "4711259499859606442e-83", "6536123578251090440e-83", "9422518999719212884e-83", "1307224715650218088e-82",
"2614449431300436176e-82", "3526881470496178175e-82", "6322628228575071863e-82", "7053762940992356350e-82", "1604929124135953208e-81", "3209858248271906416e-81", "2821505176396942540e-81", "7733380816773543133e-81",
"9972356385358039859e-81", "2830619462663471193e-80", "2257204141117554032e-80", "4514408282235108064e-80", "9028816564470216128e-80", "1017564720756205045e-79", "4643674204570737341e-79", "4070258883024820180e-79",
"9287348409141474682e-79", "8140517766049640360e-79", "1628103553209928072e-78", "2553081618643848870e-78", "3256207106419856144e-78", "5106163237287697740e-78", "6512414212839712288e-78", "1021232647457539548e-77",
"3415260686260622281e-77", "6830521372521244562e-77", "6863976956727715925e-77", "8203316763866787747e-77", "8270227932279730473e-77", "1647354469614651822e-76", "3261253355022832281e-76", "3294708939229303644e-76",
"6522506710045664562e-76", "6589417878458607288e-76", "6622873462665078651e-76", "1311192458850427185e-75", "2622384917700854370e-75", "2655840501907325733e-75", "5211314251195237377e-75", "5278225419608180103e-75",
"1048953967080341748e-74", "2786058717478754207e-74", "5572117434957508414e-74", "6327179386688521851e-74", "9146693688373747421e-74", "2379859364329206053e-73", "4759718728658412106e-73", "8267383813661708387e-73",
"5509036032082509630e-72", "9773677951585791319e-72", "2203614412833003852e-71", "8814457651332015408e-71", "2175097031600458649e-70", "4350194063200917298e-70", "7326605426740650075e-70", "1465321085348130015e-69",
"2930642170696260030e-69", "7601220583801486557e-69", "5861284341392520060e-69", "8608849740714889102e-69", "2344513736557008024e-68", "4689027473114016048e-68", "9378054946228032096e-68", "2571585486209193018e-67",
"5143170972418386036e-67", "6806469460018839078e-67", "2556257935247490327e-66", "5112515870494980654e-66", "9434255966420941963e-66", "8479986314927093914e-66", "2219510890804279001e-65", "4439021781608558002e-65",
"8878043563217116004e-65", "1902132836574466296e-64", "3804265673148932592e-64", "7608531346297865184e-64", "4628380869744240658e-63", "9256761739488481316e-63", "1058868182285148971e-62", "3569512687459091687e-62",
"7139025374918183374e-62", "9989400625222562955e-62", "3329800208407520985e-61", "3995760250089025182e-61", "5652642325029590977e-61", "9648402575118616159e-61", "1331920083363008394e-60", "5327680333452033576e-60",
"7647315238368825689e-60", "1794564179664255665e-59", "3589128359328511330e-59", "4720939709016540677e-59", "9441879418033081354e-59", "2457317009640481983e-58", "6984562408392599371e-58", "4914634019280963966e-58",
"9829268038561927932e-58", "1800259336583454754e-57", "3870187725695090159e-57", "5256461384456217832e-57", "7201037346333819016e-57", "2156518364288123263e-56", "5583857087102057055e-56", "6585008393099686933e-56",
"1116771417420411411e-55", "2426020605628839525e-55", "5891954969312855291e-55", "6276910510888888697e-55", "8934171339363291288e-55", "2071808127798900187e-54", "4143616255597800374e-54", "5306502268637352887e-54",
"9450118524235153261e-54", "7763265938012286480e-54", "3105306375204914592e-53", "8932567461701000829e-53", "7117930987506886399e-53", "9854706524502674815e-51", "6951288165792091727e-51", "1245086715222889191e-50",
"2490173430445778382e-50", "4980346860891556764e-50", "9960693721783113528e-50", "3216028020123424154e-49", "6432056040246848308e-49", "3263390628961022443e-48", "6526781257922044886e-48", "1255150241908085555e-47",
"2510300483816171110e-47", "5020600967632342220e-47", "5246999170801469749e-47", "6802443151516151579e-47", "7580165141873492494e-47", "2008240387052936888e-46", "4016480774105873776e-46", "8032961548211747552e-46",
"9121772334712024833e-46", "1948789985399579513e-45", "5535281160055802173e-45", "7795159941598318052e-45", "4100684690193313109e-44", "8201369380386626218e-44", "3935628227857307746e-43", "7528280096939194283e-43",
"8848731795627237187e-43", "1906936902635615921e-42", "3861887582460859311e-42", "5377834349131426554e-42", "7627747610542463684e-42", "3079907310530761955e-41", "6159814621061523910e-41", "7343763768084201223e-41",
"1231962924212304782e-40", "4179071186883910765e-40", "4927851696849219128e-40", "8358142373767821530e-40", "9638119075169753781e-40", "1628111611047827411e-39", "3212706358389917927e-39", "3343256949507128612e-39",
"6425412716779835854e-39", "6686513899014257224e-39", "5142070847972098159e-37", "5420578775688814287e-37", "3210571076255781153e-36", "6421142152511562306e-36", "1414714123937683033e-35", "2829428247875366066e-35",
"5658856495750732132e-35", "6663031017033619329e-35", "1905815665620728900e-34", "3811631331241457800e-34", "5732094622140050342e-34", "1524652532496583120e-33", "3049305064993166240e-33", "5886057125507464127e-33",
"6311163134465200833e-33", "7777225165850329385e-33", "8627437183765802797e-33", "1555445033170065877e-32", "3110890066340131754e-32", "3994889085164598869e-32", "6221780132680263508e-32", "7989778170329197738e-32",
"2298397448943614499e-31", "9193589795774457996e-31", "5896783085721656606e-30", "6484387618158696763e-30", "7311181515840803990e-30", "1462236303168160798e-29", "3607752884871388581e-29", "9648049589740085429e-29",
"7215505769742777162e-29", "8691457199790991650e-28", "6805537602621736971e-28", "1738291439958198330e-27", "3476582879916396660e-27", "5264083705611613773e-27", "4569831325572503836e-27", "9833915031184117609e-27",
"9139662651145007672e-27", "2781266303933117328e-26", "4072416488481469031e-26", "3378164108442359094e-26", "6654716857578172437e-26", "6756328216884718188e-26", "8246444336269483813e-26", "1290298827793016187e-25",
"1391910187099561938e-25", "2580597655586032374e-25", "2485797150322170751e-25", "4863172087295111623e-25", "4971594300644341502e-25", "9726344174590223246e-25", "9943188601288683004e-25", "1108079466445502248e-24",
"1097292390243950877e-24", "1977740353789441996e-24", "2015770846161729879e-24", "3895876062803493367e-24", "3912332402772678508e-24", "7732147480831596109e-24", "7705455515994575766e-24", "1022932184629665242e-23",
"1015546666688694133e-23", "1545185353146049234e-23", "1542335246219185141e-23", "3066528848381942218e-23", "3072749563483292157e-23", "6121136767808806311e-23", "6109736340101349939e-23", "1001823953362410968e-22",
"1000892111090714032e-22", "1221634967271696936e-22", "1222155468519318689e-22", "2443269934543393872e-22", "2441926751247621753e-22", "4884155683295772119e-22", "4883853502495243506e-22", "9765927180800528613e-22",
"9767707004990487012e-22", "1000317029731318994e-21", "1000014848930790381e-21", "1953427180800528613e-21", "1953299656357674512e-21", "3906377524442854101e-21", "3906599312715349024e-21", "7812755048885708202e-21",
"7812721788272494923e-21", "1000055045194807226e-20", "1000086098604020899e-20", "1562564314022426952e-20", "1562531053409213673e-20", "3125033260613213279e-20", "3125062106818427346e-20", "3125157474250067971e-20",
"6250161888658067183e-20", "6250124213636854692e-20", "1000037075310478904e-19", "1000027774543036721e-19", "1250028374253770308e-19", "1250028846205214067e-19", "2500037675021212491e-19", "2500019545437771884e-19",
"5000037203069768732e-19", "5000020017389215643e-19", "1000006685491643732e-18", "1000004758600153143e-18", "2000005741588756214e-18", "2000005702503040661e-18", "4000003853782981178e-18", "4000007590308815697e-18",
"8000003892868696731e-18", "8000007551223100144e-18", "1000000802025168678e-17", "1000001486793190697e-17", "1600000841110884231e-17", "1600001447707475144e-17", "3200000919282315337e-17", "3200000606596590913e-17",
"6400000312685724424e-17", "6400000450253728701e-17", "1000000003754971587e-16", "1000000148832919038e-16", "1280000007509943174e-16", "1280000145077947451e-16", "2560000015019886348e-16", "2560000137568004277e-16",
"5120000030039772696e-16", "5120000122548117929e-16", "1000000015019886348e-15", "1000000015497691777e-15", "1024000030039772696e-15", "1024000000477805429e-15", "2048000029561967267e-15", "2048000000955610858e-15",
"4096000028606356409e-15", "4096000001911221716e-15", "8192000026695134693e-15", "8192000003822443432e-15", "1000000004192293909e-14", "1000000001911221716e-14", "1638400002281072193e-14", "1638400003822443432e-14",
"1638400009925959057e-14", "3276800010665660011e-14", "3276800007644886864e-14", "6553600009124288772e-14", "6553600009186258103e-14", "1000000002120738136e-13", "1000000001541371239e-13", "1310720001800070022e-13",
"1310720001862039353e-13", "2621440002379436919e-13", "2621440001282672456e-13", "5242880002317467588e-13", "5242880001344641787e-13", "1000000000426311919e-12", "1000000000306109956e-12", "1048576000364342588e-12",
"1048576000368079287e-12", "2097152000484544551e-12", "2097152000247877324e-12", "4194304000480807852e-12", "4194304000251614023e-12", "8388608000473334454e-12", "8388608000259087421e-12", "1000000000090182852e-11",
"1000000000056301523e-11", "1677721600033881329e-11", "1677721600014946796e-11", "3355443200018934533e-11", "3355443200029893592e-11", "6710886400037869066e-11", "6710886400010959059e-11", "1000000000009168908e-10",
"1000000000000596717e-10", "1342177280008572191e-10", "1342177280001193434e-10", "2684354560007378757e-10", "2684354560002386868e-10", "5368709120004991889e-10", "5368709120004773736e-10", "1000000000001519382e-9",
"1000000000000433743e-9", "1073741824001085639e-9", "1073741824000867486e-9", "2147483648000218153e-9", "2147483648001734972e-9", "4294967296000436306e-9", "4294967296001516819e-9", "8589934592000872612e-9",
"8589934592001080513e-9", "8589934592003033638e-9", "1000000000000436306e-8", "1000000000000735569e-8", "1717986918400481987e-8", "1717986918400689888e-8", "3435973836800573349e-8", "3435973836800598526e-8",
"6871947673600756073e-8", "6871947673600415802e-8", "1000000000000104599e-7", "1000000000000129776e-7", "1374389534720131073e-7", "1374389534720103302e-7", "2748779069440105896e-7", "2748779069440128479e-7",
"5497558138880133667e-7", "5497558138880100708e-7", "1000000000000027771e-6", "1000000000000019104e-6", "1099511627776024292e-6", "1099511627776022583e-6", "2199023255552017334e-6", "2199023255552029541e-6",
"4398046511104019043e-6", "4398046511104027832e-6", "8796093022208006836e-6", "8796093022208008789e-6", "1000000000000000293e-5", "1000000000000002832e-5", "1759218604441600586e-5", "1759218604441602539e-5",
"3518437208883201172e-5", "3518437208883201953e-5", "7036874417766402344e-5", "7036874417766400781e-5", "1000000000000000547e-4", "1000000000000000078e-4", "1407374883553280469e-4", "1407374883553280156e-4",
"2814749767106560313e-4", "2814749767106560312e-4", "5629499534213120625e-4", "5629499534213120625e-4", "1000000000000000063e-3", "1000000000000000062e-3", "1125899906842624125e-3", "1125899906842624125e-3",
"2251799813685248250e-3", "2251799813685248250e-3", "2251799813685248750e-3", "4503599627370497500e-3", "4503599627370497500e-3", "9007199254740995000e-3", "9007199254740995000e-3", "1000000000000000300e-2",
"1000000000000000300e-2", "1801439850948199000e-2", "1801439850948199000e-2", "3602879701896398000e-2", "3602879701896398000e-2", "7205759403792796000e-2", "7205759403792796000e-2", "1000000000000000240e-1",
"1000000000000000240e-1", "1441151880758559200e-1", "1441151880758559200e-1", "2882303761517118400e-1", "2882303761517118400e-1", "5764607523034236800e-1", "5764607523034236800e-1", "1000000000000000192e0",
"1000000000000000192e0", "1152921504606847360e0", "1152921504606847360e0", "2305843009213694208e0", "2305843009213694208e0", "4611686018427388416e0", "4611686018427388416e0", "9223372036854776832e0",
"9223372036854776832e0", "1000000000000000512e1", "1000000000000000512e1", "1844674407370955776e1", "1844674407370955776e1", "3689348814741911552e1", "3689348814741911552e1", "7378697629483823104e1",
"7378697629483823104e1", "1000000000000002048e2", "1000000000000002048e2", "1475739525896769536e2", "1475739525896769536e2", "2951479051793539072e2", "2951479051793539072e2", "5902958103587078144e2",
"5902958103587078144e2", "1000000000000008192e3", "1000000000000008192e3", "1000000000000024576e3", "1180591620717461504e3", "1180591620717461504e3", "2361183241434923008e3", "2361183241434923008e3",
"4722366482869846016e3", "4722366482869846016e3", "9444732965739692032e3", "9444732965739692032e3", "1000000000000196608e4", "1000000000000196608e4", "1888946593148305408e4", "1888946593148305408e4",
"3777893186296610816e4", "3777893186296610816e4", "7555786372593221632e4", "7555786372593221632e4", "1000000000000524288e5", "1000000000000524288e5", "1511157274520322048e5", "1511157274520322048e5",
"3022314549040644096e5", "3022314549040644096e5", "6044629098081288192e5", "6044629098081288192e5", "1000000000000786432e6", "1000000000000786432e6", "1208925819617935360e6", "1208925819617935360e6",
"2417851639235870720e6", "2417851639235870720e6", "4835703278471741440e6", "4835703278471741440e6", "9671406556943482880e6", "9671406556943482880e6", "1000000000001835008e7", "1000000000001835008e7",
"1934281311388696576e7", "1934281311388696576e7", "3868562622777393152e7", "3868562622777393152e7", "7737125245554786304e7", "7737125245554786304e7", "1000000000043778048e8", "1000000000043778048e8",
"1547425049164644352e8", "1547425049164644352e8", "3094850098329288704e8", "3094850098329288704e8", "3094850098597724160e8", "6189700197195448320e8", "6189700197195448320e8", "1000000000278659072e9",
"1000000000278659072e9", "1237940039975960576e9", "1237940039975960576e9", "2475880079951921152e9", "2475880079951921152e9", "4951760159903842304e9", "4951760159903842304e9", "9903520319807684608e9",
"9903520319807684608e9", "1000000002560360448e10", "1000000002560360448e10", "1980704069974491136e10", "1980704069974491136e10", "3961408139948982272e10", "3961408139948982272e10", "7922816279897964544e10",
"7922816279897964544e10", "1000000014371520512e11", "1000000014371520512e11", "1584563269723488256e11", "1584563269723488256e11", "3169126505087238144e11", "3169126505087238144e11", "6338253010174476288e11",
"6338253010174476288e11", "1000000001486618624e12", "1000000001486618624e12", "1267650629522685952e12", "1267650629522685952e12", "2535301259045371904e12", "2535301259045371904e12", "5070602518090743808e12",
"5070602518090743808e12", "1000000121745702912e13", "1000000121745702912e13", "1014120668544892928e13", "1014120668544892928e13", "2028241337089785856e13", "2028241337089785856e13", "4056482674179571712e13",
"4056482674179571712e13", "8112965348359143424e13", "8112965348359143424e13", "1000000877659947008e14", "1000000877659947008e14", "1000001977171574784e14", "1622596588109037568e14", "1622596588109037568e14",
"3245193176218075136e14", "3245193176218075136e14", "6490386352436150272e14", "6490386352436150272e14", "1000008024485527552e15", "1000008024485527552e15", "1298087825798856704e15", "1298087825798856704e15",
"2596175651597713408e15", "2596175651597713408e15", "5192351303195426816e15", "5192351303195426816e15", "1000019019601805312e16", "1000019019601805312e16", "1038519518760009728e16", "1038519518760009728e16",
"2077039037520019456e16", "2077039037520019456e16", "4154078075040038912e16", "4154078075040038912e16", "8308156150080077824e16", "8308156150080077824e16", "1000010223508783104e17", "1000010223508783104e17",
"1661687525011357696e17", "1661687525011357696e17", "3323375050022715392e17", "3323375050022715392e17", "6646750100045430784e17", "6646750100045430784e17", "1000080592252960768e18", "1000080592252960768e18",
"1330250739934560256e18", "1330250739934560256e18", "2660501479869120512e18", "2660501479869120512e18", "5321002959738241024e18", "5321002959738241024e18", "1000925017183092736e19", "1000925017183092736e19",
"1065101311873122304e19", "1065101311873122304e19", "2130202623746244608e19", "2130202623746244608e19", "4260405247492489216e19", "4260405247492489216e19", "4278419646001971200e19", "8556839292003942400e19",
"8556839292003942400e19", "1035827914295214080e20", "1035827914295214080e20", "1747396655419752448e20", "1747396655419752448e20", "3494793310839504896e20", "3494793310839504896e20", "6989586621679009792e20",
"6989586621679009792e20", "1116892707587883008e21", "1116892707587883008e21", "1513209474796486656e21", "1513209474796486656e21", "3026418949592973312e21", "3026418949592973312e21", "6052837899185946624e21",
"6052837899185946624e21", "1008806316530991104e22", "2017612633061982208e22", "2017612633061982208e22", "4035225266123964416e22", "4035225266123964416e22", "5764607523034234880e22", "4598604307792703623e22",
"9249535458124144370e22", "1152921504606846976e23", "1380889463401279515e23", "2305843009213693952e23", "2761778926802559030e23", "4611686018427387904e23", "5523557853605118060e23", "9223372036854775808e23",
"9223372036854775808e23", "2209423141442047224e24", "4480137927404602093e24", "6365173242280570050e24", "7601432904024379473e24", "1273034648456114010e25", "3831362274272443559e25", "6377431571184671579e25",
"2036855437529782416e26", "3855878932080646617e26", "4291542818038483047e26", "7711757864161293234e26", "8365253693098047879e26", "1328859365955999182e27", "2657718731911998364e27", "2701285120507782007e27",
"2788417897699349293e27", "5402570241015564014e27", "5576835795398698586e27", "2195881207282852520e28", "4391762414565705040e28", "6326245290273855702e28", "8783524829131410080e28", "1756704965826282016e29",
"3337388199520062423e29", "6322732934775121628e29", "2916340984601552191e30", "2740319252469050582e30", "4952573308540596337e30", "9905146617081192674e30", "2121846709122239822e31", "4243693418244479644e31",
"7245648788029227511e31", "8487386836488959288e31", "4219886751799557707e33", "6379760870279420889e33", "6246612223399196013e33", "6313186546839308451e34", "3841171386855675021e35", "7682342773711350042e35",
"8455599685491790757e35", "9155402241392042681e36", "9774007770816395253e36", "3538439790671946558e37", "4809678194230153555e37", "8348117984902100113e37", "7042852236634391263e37", "2054397852518832307e38",
"4108795705037664614e38", "7695485110768245688e38", "8966723514326452685e38", "1793344702865290537e39", "3586689405730581074e39", "8844118969243829476e39", "2002187222588123953e40", "4004374445176247906e40",
"8008748890352495812e40", "7239668224422253473e40", "2068476635549215278e41", "4906033937028672895e41", "4136953271098430556e41", "9812067874057345790e41", "1962413574811469158e42", "3924827149622938316e42",
"5972091173024604370e42", "7849654299245876632e42", "1194418234604920874e43", "2388836469209841748e43", "4777672938419683496e43", "8020440522149964479e43", "6654150738917261703e43", "4948893291613248965e44",
"9897786583226497930e44", "1979557316645299586e45", "3959114633290599172e45", "3378180997243013919e45", "7918229266581198344e45", "6756361994486027838e45", "1126060332414337973e46", "4504241329657351892e46",
"9008482659314703784e46", "3414308840970017041e47", "6828617681940034082e47", "7845973579127192100e47", "1569194715825438420e48", "5768100914708174671e48", "6843004638621601213e48", "8877716432995917249e48",
"1255355772660350736e49", "2510711545320701472e49", "3019389493914280481e49", "7351682587215180222e49", "6038778987828560962e49", "1870743236788460537e50", "3741486473576921074e50", "5218358630549395833e50",
"6432650067644546740e50", "9222425824003640759e50", "2573060027057818696e51", "5146120054115637392e51", "9983794397777902403e51", "4240274327473858866e52", "8480548654947717732e52", "3864038896021545471e53",
"7077291510636875673e53", "2961073860535993323e54", "4165027241183396187e54", "9805166747009959294e54", "8330054482366792374e54", "4533805307344187917e55", "9067610614688375834e55", "7458001361264102067e55",
"3948966096560205087e56", "2339356843135931320e56", "7897932193120410174e56", "4678713686271862640e56", "9057199224541807958e56", "1609609253424273767e57", "3219218506848547534e57", "5090703981357292590e57",
"3742970949017490112e57", "7485941898034980224e57", "1018140796271458518e58", "2036281592542917036e58", "4072563185085834072e58", "5449660305492063188e58", "8145126370171668144e58", "6980466635439658723e59",
"7830216178136537503e59", "3596452010556939209e60", "4021326781905378599e60", "5527887549543904585e61", "9197820309762603763e61", "1105577509908780917e62", "2211155019817561834e62", "3280443707096882018e62",
"4422310039635123668e62", "5419021081655522386e62", "7131820580462884861e62", "9696175830772803122e62", "4732586349047726003e65", "9465172698095452006e65", "7290366933933387299e65", "7130145967919404959e66",
"9768037035812057425e66", "3351107926405767861e67", "6702215852811535722e67", "1562885925729929188e68", "4132550889270732455e68", "6251543702919716752e68", "2299261673605711885e69", "5033895189054370395e69",
"6612081422833171928e69", "9197046694422847540e69", "1926483707253158833e70", "1839409338884569508e70", "3940041782874906991e70", "3678818677769139016e70", "7793009197381224657e70", "7183488618801099382e70",
"2347895961270931053e74", "4918702305565450778e74", "4695791922541862106e74", "7768146628639456343e74", "7322325862592278999e74", "3431946094744636111e75", "6863892189489272222e75", "5501204077236081324e75",
"2609288064570389799e76", "5218576129140779598e76", "7262608297520565945e76", "1255351489878888803e77", "2510702979757777606e77", "4931572412264632921e77", "5021405959515555212e77", "5899920185267375047e77",
"6079587279769219629e77", "3963224639261890795e78", "4755869567114268954e78", "9511739134228537908e78", "2201439088536474387e79", "4402878177072948774e79", "6341159422819025272e79", "7310300045692063521e79",
"2060242532519946315e80", "4120485065039892630e80", "3876562491492152996e80", "6745513821625951233e80", "7753124982984305992e80", "1648194026015957052e81", "3998523778266022813e81", "6592776104063828208e81",
"7997047556532045626e81", "6379401074028513179e84", "2032274715899115093e85", "4064549431798230186e85", "6959346626212923468e85", "8406745223420270109e85", "4116134250557105603e86", "5860901473617694633e86",
"8232268501114211206e86", "1925616455912536486e87", "3851232911825072972e87", "6390704151081759895e87", "2556281660432703958e88", "5112563320865407916e88", "8913364969162429783e88", "2569729997373517586e89",
"5139459994747035172e89", "9289918403505211367e89", "8859571621399175271e89", "2382688349728396693e90", "4309368312995399933e90", "7629735040001940889e90", "8618736625990799866e90", "2093686355238346207e91",
"3635030325851948799e91", "5728716681090295006e91", "7270060651703897598e91", "8978411014288843157e91", "6445458104518541823e92", "1487413408735048113e93", "3910419312213968677e93", "8868464007997462387e93",
"7820838624427937354e93", "2918810373057269935e94", "5837620746114539870e94", "2335048298445815948e95", "4670096596891631896e95", "9220294428129880851e95", "1820079132495299582e96", "7280316529981198328e96",
"2888146858861802743e97", "5896192483376988427e97", "9649725751579270777e97", "3763971288109001958e98", "5145485829736531957e98", "7527942576218003916e98", "1381514541627529999e99", "2763029083255059998e99",
"5526058166510119996e99", "8729073222042734268e99", "7716248290087999061e100", "5361517906841711345e100", "9153215558185897546e100", "2144607162736684538e101", "4289214325473369076e101", "9468400388950302313e101",
"2437558891785229249e102", "4875117783570458498e102", "6842951378371329942e102", "9750235567140916996e102", "4115666598215828255e103", "5258788731337602497e103", "8231333196431656510e103", "9178674500580029875e103",
"1835734900116005975e104", "4370395135369969887e104", "6585066557145325208e104", "9439715605877897711e104", "7342939600464023900e104", "1468587920092804780e105", "2937175840185609560e105", "7272202350647134994e105",
"5874351680371219120e105", "1174870336074243824e106", "2349740672148487648e106", "8447072686721378818e106", "6573277015509177057e106", "3004069940446111175e107", "4134344209680020589e107", "8268688419360041178e107",
"2226769191975326547e108", "2579742712738451333e108", "4453538383950653094e108", "5159485425476902666e108", "8554103247138181402e108", "9965997330190680546e108", "1922604761885511152e109", "3315749242626335125e109",
"4021696284152584697e109", "6631498485252670250e109", "8043392568305169394e109", "8925826370212981359e109", "1326299697050534050e110", "1679273217813658836e110", "3358546435627317672e110", "4861332893059414115e110",
"7866905807923607001e110", "1061039757640427240e111", "1944533157223765646e111", "3889066314447531292e111", "8488318061123417920e111", "9456346249033194979e111", "2033306336252310063e112", "3730969948476993647e112",
"7461939896953987294e112", "1760902158612898642e113", "2096544882640525121e113", "7043608634451594568e113", "4193089765281050242e113", "8220802453612567990e113", "1644160490722513598e114", "3288320981445027196e114",
"6221528389090337769e114", "6576641962890054392e114", "2417588640876191783e115", "5881030467231012127e115", "9334728525625571817e115", "9670354563504767132e115", "5458791685855456441e116", "8087499717419426067e116",
"1064908254140755663e117", "2695833239139808689e117", "4259633016563022652e117", "3127599554846427926e117", "8519266033126045304e117", "6255199109692855852e117", "1930259898968528006e118", "3860519797937056012e118",
"5558569990511948101e118", "5456972672440922572e118", "1523888455560617299e119", "3047776911121234598e119", "3933084216880305273e119", "9244928051434729323e119", "1062368766910884810e120", "4249475067643539240e120",
"7120190517612959703e120", "1699790027057415696e121", "3154013787812323079e121", "6308027575624646158e121", "3478878964607648497e122", "4287207139183933543e122", "6957757929215296994e122", "8574414278367867086e122",
"2670550790031363451e123", "5341101580062726902e123", "8265408883671105089e123", "2844904250625471197e124", "5689808501250942394e124", "5206449645960072651e124", "2662610484733072752e125", "5325220969466145504e125",
"5571037177744869541e125", "1550057761437414510e126", "3100115522874829020e126", "4358503258884406018e126", "6629462522624835977e126", "8717006517768812036e126", "2480092418299863216e127", "4960184836599726432e127",
"9282005041764841670e127", "3712802016705936668e128", "7223807489596298235e128", "7425604033411873336e128", "9340697927715706918e128", "1444761497919259647e129", "2889522995838519294e129", "3695919862323167747e129",
"4838381198907890718e129", "9474965854000206335e129", "9676762397815781436e129", "1518727253692382119e130", "3037454507384764238e130", "7579972683200165068e130", "4964608835790873209e131", "7093559708012557281e131",
"9929217671581746418e131", "1205816854380343049e132", "3085212845085608129e132", "4823267417521372196e132", "3476109144871528134e132", "8191163099145982351e132", "6952218289743056268e132", "4149688281196450165e133",
"6434997673332502239e133", "1659875312478580066e134", "5020526652752103803e134", "8258475847076536725e134", "1651695169415307345e135", "3303390338830614690e135", "5184129514017558223e135", "4922364935992831151e135",
"6999427544698319988e135", "8160314130317264073e135", "1321356135532245876e136", "5053247225005194687e136", "9874317132886600557e136", "7945889169734038209e137", "8410243803981615843e137", "4144936630341971518e138",
"3689145765565950681e138", "7378291531131901362e138", "3224791131318373047e139", "5439991344552254815e139", "9120573340646648699e139", "8664782475870627862e139", "2175996537820901926e140", "4351993075641803852e140",
"8091380584855667499e140", "8703986151283607704e140", "1068396431203961042e141", "2136792862407922084e141", "4273585724815844168e141", "4763670177958196332e141", "8547171449631688336e141", "7268026380222882539e141",
"3632976872915164281e144", "7265953745830328562e144", "1030247172916240617e145", "1482109968054942642e145", "2964219936109885284e145", "5928439872219770568e145", "1084470708332884860e146", "1590557038888231128e146",
"3181114077776462256e146", "6362228155552924512e146", "3470306266665231552e147", "6940612533330463104e147", "7983341534167611298e147", "2948941766246657455e148", "7484784984692622999e148", "5897883532493314910e148",
"1179576706498662982e149", "2513603805156929539e149", "8664361691191285981e149", "5027207610313859078e149", "4193175492651999773e150", "4687416747562731213e150", "8880592240214730986e150", "4168463429906463201e151",
"4366159931870755777e151", "4761552935799340929e151", "8732319863741511554e151", "9523105871598681858e151", "8037014729135223717e152", "6490941160536225039e153", "6388725531822814930e153", "1277745106364562986e154",
"3441392159876637999e154", "5110980425458251944e154", "7507457494089420719e154", "1147130719958879333e155", "4588522879835517332e155", "5213196054171662053e155", "5299520317964663767e155", "1576907455820448873e156",
"6548866666636953209e156", "6307629823281795492e156", "9133883627774533807e156", "1213278595985327555e157", "4446323392209688045e157", "4853114383941310220e157", "9299437776150998265e157", "1778529356883875218e158",
"1859887555230199653e158", "3475700515421426001e158", "3801133308806723741e158", "6951401030842852002e158", "7520908419267123047e158", "5629461711285194127e160", "6019981063347551415e160", "1203996212669510283e161",
"3807248314039709493e161", "8102540695301274241e161", "7614496628079418986e161", "5564375152608134579e162", "5173939898830650375e162", "1034787979766130075e163", "3989440219364552377e163", "7829168739029136831e163",
"8278303838129040600e163", "1655660767625808120e164", "3311321535251616240e164", "6622643070503232480e164", "1324528614100646496e165", "2649057228201292992e165", "5881710133069747802e165", "2294324485561182939e166",
"5826400789829573595e166", "7355950446870362221e166", "9831454084284777655e166", "2694829815006703345e167", "2330560315931829438e167", "5389659630013406690e167", "3932581633713911062e167", "7865163267427822124e167",
"2155863852005362676e168", "2520133351080236583e168", "2854649707711229724e168", "6831861055090961935e168", "7500893768352948217e168", "1366372211018192387e169", "1791594352930488769e169", "5465488844072769548e169",
"8107527480827851081e169", "7166377411721955076e169", "4641367849214724695e171", "9282735698429449390e171", "6549420985952418837e172", "3713094279371779756e172", "7426188558743559512e172", "3607882170636842875e173",
"6654633094687355718e173", "9841666830384451069e173", "7776895587860015782e173", "2886305736509474300e174", "7235926717168141785e174", "5772611473018948600e174", "9561101207091286053e174", "1154522294603789720e175",
"2894370686867256714e175", "2309044589207579440e175", "5496078324904674791e175", "4032763080755481606e175", "8065526161510963212e175", "2432561769025740826e176", "4865123538051481652e176", "5249043965268352019e176",
"9730247076102963304e176", "3347053866870069429e177", "6694107733740138858e177", "6456199111942519259e177", "2037434681205891811e178", "6800094180267363085e178", "8175674453566738389e178", "8149738724823567244e178",
"2720037672106945234e179", "5445262489962524697e179", "5434888198465256239e179", "7265537132365333825e179", "1453107426473066765e180", "3624987847559715569e180", "6531202700505849099e180", "7968748689733013177e180",
"2324971882356906824e181", "4649943764713813648e181", "5072908128284148105e181", "9299887529427627296e181", "1335821403205494578e182", "2671642806410989156e182", "5343285612821978312e182", "7051209086586972597e182",
"9182096923922301339e182", "4700806057724648398e183", "5001700918068979455e183", "6067144836736643826e183", "9865266313428299053e183", "1667233639356326485e184", "3334467278712652970e184", "4001360734455183564e184",
"4399911197380317341e184", "8002721468910367128e184", "8799822394760634682e184", "2667573822970122376e185", "5040763159101300543e185", "4746378672262356334e185", "6426633058629456515e185", "1285326611725891303e186",
"2570653223451782606e186", "9291670768920183330e186", "8207430732798821365e186", "1641486146559764273e187", "3933516314792345725e187", "3282972293119528546e187", "7650184622360419057e187", "6349096579014784699e187",
"1356558518692665897e188", "2713117037385331794e188", "6293626103667753160e188", "6727322118116297946e188", "7922503104931722989e188", "2517450441467101264e189", "2929965044609604187e189", "7964865927543806715e189",
"9160046914359231758e189", "3185946371017522686e190", "6314807514973795023e190", "6371892742035045372e190", "6486063196157546070e190", "2537340051401768079e191", "3402148477556107555e191", "5188850556926036856e191",
"8476828580359643713e191", "2410046547819900463e192", "3770905938842343485e192", "5443437564089772088e192", "7541811877684686970e192", "3016724751073874788e193", "6820963220308211947e193", "8131823815742664458e193",
"4984262345350292135e194", "7187306034400005045e194", "2549948669400232699e195", "1993704938140116854e195", "5099897338800465398e195", "3431166145020117863e195", "9087307215080699106e195", "6306088558780119881e195",
"5467616082781783947e197", "9472570947854618031e197", "2250510177577397747e198", "1831050445106239438e198", "4501020355154795494e198", "5022621097773691271e198", "9002040710309590988e198", "7324201780424957752e198",
"1904728290585697353e199", "3809456581171394706e199", "7618913162342789412e199", "2176832332097939832e200", "3596294816042718559e200", "5111034512349040769e200", "7949959480238598223e200", "9464699176544920433e200",
"6450851965969257911e202", "8874435480059373447e202", "2623141325943415127e203", "4234048706695072077e203", "7455863468198385977e203", "9480331358581902331e203", "2822699137796714718e204", "3589685754394409297e204",
"6167137563597060417e204", "7179371508788818594e204", "2055712521199020139e205", "3074195392553879073e205", "5136156839915999969e205", "6148390785107758146e205", "2671801384942416105e206", "5940944855138925905e206",
"1188188971027785181e207", "2137441107953932884e207", "2376377942055570362e207", "4274882215907865768e207", "4752755884111140724e207", "8549764431815731536e207", "9505511768222281448e207", "3228756305444982632e208",
"3018909314337830669e208", "8788701265917369014e208", "6247665619782813301e208", "2074797915129074963e209", "4149595830258149926e209", "5338462032167440213e209", "8299191660516299852e209", "2168045461330171113e210",
"4336090922660342226e210", "4032996385352094113e210", "8672181845320684452e210", "2391839572212801873e211", "4783679144425603746e211", "4480584607117355633e211", "9567358288851207492e211", "6574032031486649826e211",
"3406372874880727985e212", "3883800311430340273e212", "8786836314993347091e212", "7767600622860680546e212", "2928945438331115697e213", "2725098299904582388e213", "6061738015088764703e213", "5042502322956098158e213",
"9881157507485663007e213", "2465464633720812543e214", "2261617495294279234e214", "4930929267441625086e214", "4115540713735491850e214", "9861858534883250172e214", "8231081427470983700e214", "3292432570988393480e215",
"5142495994909123529e215", "1316973028395357392e216", "4076315203858378215e216", "8341038368061359471e216", "1630526081543351286e217", "2822102991266402639e217", "9093666105964110891e217", "5644205982532805278e217",
"5205256810712505345e218", "9695768296286312027e218", "2082102724285002138e219", "5972836693025745719e219", "8328410897140008552e219", "2246185612182558555e220", "4492371224365117110e220", "7832442755864718445e220",
"6082225284957449997e220", "1566488551172943689e221", "2027408428319149999e221", "3593896979492093688e221", "6265954204691774756e221", "4746196672357609463e221", "9492393344715218926e221", "4285276795211403153e222",
"7095609983554946114e222", "8570553590422806306e222", "5483157250892213347e225", "6932432487611697325e225", "1746746217273211019e226", "1386486497522339465e226", "3313362574670986261e226", "2772972995044678930e226",
"6446595289466536745e226", "5545945990089357860e226", "1289319057893307349e227", "2578638115786614698e227", "5157276231573229396e227", "4436756792071486288e227", "8873513584142972576e227", "3310521570794460570e228",
"6621043141588921140e228", "4797016511822357842e228", "8299031957998356953e228", "2648417256635568456e229", "5296834513271136912e229", "4355613635716429766e229", "8357447083341207947e229", "8711227271432859532e229",
"1224245028028028414e230", "2377734018437726511e230", "2519246093674387145e230", "4755468036875453022e230", "5038492187348774290e230", "9510936073750906044e230", "9793960224224227312e230", "2015396874939509716e231",
"4684711999257122705e231", "5904678549581868514e231", "9369423998514245410e231", "1873884799702849082e232", "3747769599405698164e232", "4462175539914253502e232", "7852742169065673997e232", "8567148109574229335e232",
"3069656273575414065e233", "6139312547150828130e233", "6853718487659383468e233", "9971764914139159185e233", "2455725018860331252e234", "3631502995401386005e234", "3988705965655663674e234", "7724378026835271425e234",
"7977411931311327348e234", "1544875605367054285e235", "3089751210734108570e235", "5810404792642217608e235", "7908926841248271191e235", "1235900484293643428e236", "1978277033100876233e236", "3214177517394519661e236",
"4943601937174573712e236", "6428355034789039322e236", "9634169969873091501e236", "3904274768844447785e237", "6279879725027592761e237", "7808549537688895570e237", "1561709907537779114e238", "3123419815075558228e238",
"6246839630151116456e238", "6873780964073379005e238", "1174586440140981966e239", "1374756192814675801e239", "4698345760563927864e239", "5672762448031215995e239", "5499024771258703204e239", "1134552489606243199e240",
"3723929073096639733e240", "5993034052309126131e240", "9076419916849945592e240", "2618683368991476003e243", "5237366737982952006e243", "8147014925751258676e243", "3683451517638308974e244", "5333303584141122491e244",
"9016755101779431465e244", "1803351020355886293e245", "4361318001350140793e245", "7213404081423545172e245", "5704172160146808758e245", "1291757624157035393e246", "2583515248314070786e246", "5167030496628141572e246",
"8863256147926358689e246", "7430878378543246193e247", "6471541319451667602e247", "4384324002934025954e248", "5133771692126861887e248", "8768648005868051908e248", "6310415568390801451e248", "3207680126670086390e249",
"6415360253340172780e249", "5240199866530956879e249", "9089416018535060547e249", "1326236716211562018e250", "2652473432423124036e250", "5132288202672138224e250", "5304946864846248072e250", "7655267638464679874e250",
"8000584962812899570e250", "2904771376002378201e251", "9550847240150041415e251", "6400467970250319656e251", "3820338896060016566e252", "7128786981789201431e252", "6105005361127538029e252", "1323379234291673946e253",
"2646758468583347892e253", "6317298557828359186e253", "5293516937166695784e253", "8593695013881422815e253", "1161081549499505497e254", "2322163098999010994e254", "4644326197998021988e254", "9288652395996043976e254",
"2907280538043358479e255", "7588220050398138359e255", "2168526296833383605e256", "4337052593666767210e256", "5518410584195245305e256", "7094635897245685604e256", "1103682116839049061e257", "2207364233678098122e257",
"3469642074933413768e257", "6939284149866827536e257", "6858364299139989985e257", "1371672859827997997e258", "3515598803739589485e258", "8656623626373203503e258", "7031197607479178970e258", "2812479042991671588e259",
"4990971648571100873e259", "8241823686359149939e259", "9981943297142201746e259", "3803918624473453818e260", "7448672021173724155e260", "7130341565627357193e260", "1489734404234744831e261", "2820303580696306181e261",
"7892195079994244605e261", "7573864624447877643e261", "1578439015998848921e262", "1933257463055265281e262", "6313756063995395684e262", "8565343982597027927e262", "9347956859729959443e262", "4718079199045929826e263",
"5373990252698096211e263", "9133053497887294103e263", "9436158398091859652e263", "2926749114813231089e264", "4763300065039296967e264", "5853498229626462178e264", "9526600130078593934e264", "3180965440525357844e265",
"6361930881050715688e265", "5320621290955989271e265", "7452129045637880899e265", "5727367412095392079e266", "8265621287916686515e266", "8070396323095724910e266", "1575034271654952661e267", "3306248515166674606e267",
"3228158529238289964e267", "6300137086619810644e267", "9723520580679062213e267", "5802876354036083471e268", "9567340608822292929e268", "2728832961464408191e269", "5457665922928816382e269", "7035797447369000943e269",
"6838507647357884738e269", "8876919746607758751e269", "6036320377745175557e270", "7916900636986156606e270", "2727511466942709247e271", "5455022933885418494e271", "2382961783096291630e272", "7174674516524927145e272",
"8076280895291339287e272", "1906369426477033304e273", "2869869806609970858e273", "4755607899298162358e273", "7625477705908133216e273", "9511215798596324716e273", "3718451948319657033e274", "7436903896639314066e274",
"5604190041007848533e274", "3643022424612129373e275", "7286044849224258746e275", "7867075752233678333e275", "2798211759087819581e276", "4729207566000527677e276", "7527419325088347258e276", "9458415132001055354e276",
"6561921421631993210e277", "6524340802055103343e277", "2624768568652797284e278", "5249537137305594568e278", "9366489484080912515e278", "2522784275472836582e279", "4396082172289019085e279", "3746595793632365006e279",
"8792164344578038170e279", "1758432868915607634e280", "3453523648813097067e280", "7097073564680548737e280", "6970389386644312335e280", "2851497843675843135e281", "5639653598333568069e281", "5576311509315449868e281",
"2281198274940674508e282", "4499054460863230815e282", "4435712371845112614e282", "6146537488859916889e282", "8871424743690225228e282", "1178633826557488817e283", "4220231526478388161e283", "2978255610902781143e283",
"8440463052956776322e283", "5956511221805562286e283", "9061451010744579831e283", "5188475423331626495e284", "7525379413796708249e284", "8113570776541237377e284", "2075390169332650598e285", "8301560677330602392e285",
"7966522935855105095e285", "3186609174342042038e286", "8116914856486597107e286", "9525573622813612841e286", "3595505244155141449e287", "4669126269006659886e287", "7191010488310282898e287", "7299122716860398285e287",
"1846028061892640877e288", "3692056123785281754e288", "4572575389376519581e288", "7384112247570563508e288", "7492224476120678895e288", "2996889790448271558e289", "8573594327978250311e289", "5993779580896543116e289",
"9299632186161263650e289", "2375889386648594169e290", "7275116635012355363e-339", "5354760049802535439e-336", "4603490992688200642e-335", "2301745496344100321e-334", "3010355726914441610e-329", "8355535952847819945e-295",
"1671107190569563989e-294", "3342214381139127978e-294", "6684428762278255956e-294", "8118381224613298851e-281", "9922465941194031929e-281", "8016996639253144193e-235", "4630726723053500095e-226", "9261453446107000190e-226",
"1852290689221400038e-225", "3704581378442800076e-225", "7409162756885600152e-225", "6536997556035455193e-184", "6764958008109694533e-173", "5554681572821496849e-113", "5961090311065069271e-94", "7871042307410919273e-87",
"4523522568501636717e-81", "9047045137003273434e-81", "3507665085003296281e-73", "7015330170006592562e-73", "2219510890804279001e-65", "4439021781608558002e-65", "8878043563217116004e-65", "5573329417113950893e-43",
"1142457831393125959e-27", "2284915662786251918e-27", "4569831325572503836e-27", "9139662651145007672e-27", "1390633151966558664e-26", "2781266303933117328e-26", "1689082054221179547e-26", "4072416488481469031e-26",
"5562532607866234656e-26", "3378164108442359094e-26", "4868280227827124719e-26", "6654716857578172437e-26", "8144832976962938062e-26", "6756328216884718188e-26", "8246444336269483813e-26", "1092184249711937781e-25",
"1290298827793016187e-25", "1588322051669969312e-25", "1391910187099561938e-25", "1689933410976515063e-25", "2580597655586032374e-25", "2878620879462985499e-25", "2485797150322170751e-25", "2783820374199123876e-25",
"4863172087295111623e-25", "5161195311172064748e-25", "4971594300644341502e-25", "5269617524521294627e-25", "9726344174590223246e-25", "9645165377411729879e-25", "9943188601288683004e-25", "1048474821670111623e-24",
"1108079466445502248e-24", "1037687745468560252e-24", "1097292390243950877e-24", "1918135709014051371e-24", "1977740353789441996e-24", "1956166201386339254e-24", "2015770846161729879e-24", "3836271418028102742e-24",
"3895876062803493367e-24", "3852727757997287883e-24", "3912332402772678508e-24", "7672542836056205484e-24", "7732147480831596109e-24", "7645850871219185141e-24", "7705455515994575766e-24", "1011011255674587117e-23",
"1022932184629665242e-23", "1003625737733616008e-23", "1015546666688694133e-23", "1533264424190971109e-23", "1545185353146049234e-23", "1530414317264107016e-23", "1542335246219185141e-23", "3054607919426864093e-23",
"3066528848381942218e-23", "3060828634528214032e-23", "3072749563483292157e-23", "6109215838853728186e-23", "6121136767808806311e-23", "6109736340101349939e-23", "6121657269056428064e-23", "1001823953362410968e-22",
"1004208139153426593e-22", "1000892111090714032e-22", "1003276296881729657e-22", "1221634967271696936e-22", "1224019153062712561e-22", "1222155468519318689e-22", "1224539654310334314e-22", "2443269934543393872e-22",
"2445654120334409497e-22", "2441926751247621753e-22", "2444310937038637378e-22", "4884155683295772119e-22", "4886539869086787744e-22", "4883853502495243506e-22", "4886237688286259131e-22", "9765927180800528613e-22",
"9768311366591544238e-22", "9767707004990487012e-22", "9770091190781502637e-22", "1000317029731318994e-21", "1000793866889522119e-21", "1000014848930790381e-21", "1000491686088993506e-21", "1953427180800528613e-21",
"1953904017958731738e-21", "1953299656357674512e-21", "1953776493515877637e-21", "3906377524442854101e-21", "3906854361601057226e-21", "3906599312715349024e-21", "3907076149873552149e-21", "7812755048885708202e-21",
"7813231886043911327e-21", "7812721788272494923e-21", "7813198625430698048e-21", "1000055045194807226e-20", "1000150412626447851e-20", "1000086098604020899e-20", "1000181466035661524e-20", "1562564314022426952e-20",
"1562659681454067577e-20", "1562531053409213673e-20", "1562626420840854298e-20", "3125033260613213279e-20", "3125128628044853904e-20", "3125062106818427346e-20", "3125157474250067971e-20", "6250066521226426558e-20",
"6250161888658067183e-20", "6250028846205214067e-20", "6250124213636854692e-20", "1000018001824150779e-19", "1000037075310478904e-19", "1000008701056708596e-19", "1000027774543036721e-19", "1250009300767442183e-19",
"1250028374253770308e-19", "1250009772718885942e-19", "1250028846205214067e-19", "2500018601534884366e-19", "2500037675021212491e-19", "2500000471951443759e-19", "2500019545437771884e-19", "5000018129583440607e-19",
"5000037203069768732e-19", "5000000943902887518e-19", "5000020017389215643e-19", "1000002870794378107e-18", "1000006685491643732e-18", "1000000943902887518e-18", "1000004758600153143e-18", "2000001926891490589e-18",
"2000005741588756214e-18", "2000001887805775036e-18", "2000005702503040661e-18", "4000000039085715553e-18", "4000003853782981178e-18", "4000003775611550072e-18", "4000007590308815697e-18", "8000000078171431106e-18",
"8000003892868696731e-18", "8000003736525834519e-18", "8000007551223100144e-18", "1000000039085715553e-17", "1000000802025168678e-17", "1000000723853737572e-17", "1000001486793190697e-17", "1600000078171431106e-17",
"1600000841110884231e-17", "1600000684768022019e-17", "1600001447707475144e-17", "3200000156342862212e-17", "3200000919282315337e-17", "3200000606596590913e-17", "3200001369536044038e-17", "6400000312685724424e-17",
"6400001075625177549e-17", "6400000450253728701e-17", "6400001213193181826e-17", "1000000003754971587e-16", "1000000156342862212e-16", "1000000148832919038e-16", "1000000301420809663e-16", "1280000007509943174e-16",
"1280000160097833799e-16", "1280000145077947451e-16", "1280000297665838076e-16", "2560000015019886348e-16", "2560000167607776973e-16", "2560000137568004277e-16", "2560000290155894902e-16", "5120000030039772696e-16",
"5120000182627663321e-16", "5120000122548117929e-16", "5120000275136008554e-16", "1000000015019886348e-15", "1000000045537464473e-15", "1000000015497691777e-15", "1000000046015269902e-15", "1024000030039772696e-15",
"1024000060557350821e-15", "1024000000477805429e-15", "1024000030995383554e-15", "2048000029561967267e-15", "2048000060079545392e-15", "2048000000955610858e-15", "2048000031473188983e-15", "4096000028606356409e-15",
"4096000059123934534e-15", "4096000001911221716e-15", "4096000032428799841e-15", "8192000026695134693e-15", "8192000057212712818e-15", "8192000003822443432e-15", "8192000034340021557e-15", "1000000004192293909e-14",
"1000000010295809534e-14", "1000000001911221716e-14", "1000000008014737341e-14", "1638400002281072193e-14", "1638400008384587818e-14", "1638400003822443432e-14", "1638400009925959057e-14", "3276800004562144386e-14",
"3276800010665660011e-14", "3276800001541371239e-14", "3276800007644886864e-14", "6553600003020773147e-14", "6553600009124288772e-14", "6553600003082742478e-14", "6553600009186258103e-14", "1000000000900035011e-13",
"1000000002120738136e-13", "1000000000320668114e-13", "1000000001541371239e-13", "1310720000579366897e-13", "1310720001800070022e-13", "1310720000641336228e-13", "1310720001862039353e-13", "2621440001158733794e-13",
"2621440002379436919e-13", "2621440000061969331e-13", "2621440001282672456e-13", "5242880001096764463e-13", "5242880002317467588e-13", "5242880000123938662e-13", "5242880001344641787e-13", "1000000000182171294e-12",
"1000000000426311919e-12", "1000000000061969331e-12", "1000000000306109956e-12", "1048576000120201963e-12", "1048576000364342588e-12", "1048576000123938662e-12", "1048576000368079287e-12", "2097152000240403926e-12",
"2097152000484544551e-12", "2097152000003736699e-12", "2097152000247877324e-12", "4194304000236667227e-12", "4194304000480807852e-12", "4194304000007473398e-12", "4194304000251614023e-12", "8388608000229193829e-12",
"8388608000473334454e-12", "8388608000014946796e-12", "8388608000259087421e-12", "1000000000041354727e-11", "1000000000090182852e-11", "1000000000007473398e-11", "1000000000056301523e-11", "1677721600033881329e-11",
"1677721600082709454e-11", "1677721600014946796e-11", "1677721600063774921e-11", "3355443200018934533e-11", "3355443200067762658e-11", "3355443200029893592e-11", "3355443200078721717e-11", "6710886400037869066e-11",
"6710886400086697191e-11", "6710886400010959059e-11", "6710886400059787184e-11", "1000000000009168908e-10", "1000000000018934533e-10", "1000000000000596717e-10", "1000000000010362342e-10", "1342177280008572191e-10",
"1342177280018337816e-10", "1342177280001193434e-10", "1342177280010959059e-10", "2684354560007378757e-10", "2684354560017144382e-10", "2684354560002386868e-10", "2684354560012152493e-10", "5368709120004991889e-10",
"5368709120014757514e-10", "5368709120004773736e-10", "5368709120014539361e-10", "1000000000001519382e-9", "1000000000003472507e-9", "1000000000000433743e-9", "1000000000002386868e-9", "1073741824001085639e-9",
"1073741824003038764e-9", "1073741824000867486e-9", "1073741824002820611e-9", "2147483648000218153e-9", "2147483648002171278e-9", "2147483648001734972e-9", "2147483648003688097e-9", "4294967296000436306e-9",
"4294967296002389431e-9", "4294967296001516819e-9", "4294967296003469944e-9", "8589934592000872612e-9", "8589934592002825737e-9", "8589934592001080513e-9", "8589934592003033638e-9", "1000000000000045681e-8",
"1000000000000436306e-8", "1000000000000344944e-8", "1000000000000735569e-8", "1717986918400091362e-8", "1717986918400481987e-8", "1717986918400299263e-8", "1717986918400689888e-8", "3435973836800182724e-8",
"3435973836800573349e-8", "3435973836800207901e-8", "3435973836800598526e-8", "6871947673600365448e-8", "6871947673600756073e-8", "6871947673600025177e-8", "6871947673600415802e-8", "1000000000000026474e-7",
"1000000000000104599e-7", "1000000000000051651e-7", "1000000000000129776e-7", "1374389534720052948e-7", "1374389534720131073e-7", "1374389534720025177e-7", "1374389534720103302e-7", "2748779069440027771e-7",
"2748779069440105896e-7", "2748779069440050354e-7", "2748779069440128479e-7", "5497558138880055542e-7", "5497558138880133667e-7", "5497558138880022583e-7", "5497558138880100708e-7", "1000000000000012146e-6",
"1000000000000027771e-6", "1000000000000003479e-6", "1000000000000019104e-6", "1099511627776008667e-6", "1099511627776024292e-6", "1099511627776006958e-6", "1099511627776022583e-6", "2199023255552001709e-6",
"2199023255552017334e-6", "2199023255552013916e-6", "2199023255552029541e-6", "4398046511104003418e-6", "4398046511104019043e-6", "4398046511104012207e-6", "4398046511104027832e-6", "8796093022208006836e-6",
"8796093022208022461e-6", "8796093022208008789e-6", "8796093022208024414e-6", "1000000000000000293e-5", "1000000000000003418e-5", "1000000000000002832e-5", "1000000000000005957e-5", "1759218604441600586e-5",
"1759218604441603711e-5", "1759218604441602539e-5", "1759218604441605664e-5", "3518437208883201172e-5", "3518437208883204297e-5", "3518437208883201953e-5", "3518437208883205078e-5", "7036874417766402344e-5",
"7036874417766405469e-5", "7036874417766400781e-5", "7036874417766403906e-5", "1000000000000000547e-4", "1000000000000001172e-4", "1000000000000000078e-4", "1000000000000000703e-4", "1407374883553280469e-4",
"1407374883553281094e-4", "1407374883553280156e-4", "1407374883553280781e-4", "2814749767106560313e-4", "2814749767106560938e-4", "2814749767106560312e-4", "2814749767106560937e-4", "5629499534213120625e-4",
"5629499534213121875e-4", "5629499534213120625e-4", "5629499534213121875e-4", "1000000000000000063e-3", "1000000000000000188e-3", "1000000000000000062e-3", "1000000000000000187e-3", "1125899906842624125e-3",
"1125899906842624375e-3", "1125899906842624125e-3", "1125899906842624375e-3", "2251799813685248250e-3", "2251799813685248750e-3", "2251799813685248250e-3", "2251799813685248750e-3", "4503599627370496500e-3",
"4503599627370497500e-3", "4503599627370496500e-3", "4503599627370497500e-3", "9007199254740993000e-3", "9007199254740995000e-3", "9007199254740993000e-3", "9007199254740995000e-3", "1000000000000000100e-2",
"1000000000000000300e-2", "1000000000000000100e-2", "1000000000000000300e-2", "1801439850948198600e-2", "1801439850948199000e-2", "1801439850948198600e-2", "1801439850948199000e-2", "3602879701896397200e-2",
"3602879701896398000e-2", "3602879701896397200e-2", "3602879701896398000e-2", "7205759403792794400e-2", "7205759403792796000e-2", "7205759403792794400e-2", "7205759403792796000e-2", "1000000000000000080e-1",
"1000000000000000240e-1", "1000000000000000080e-1", "1000000000000000240e-1", "1441151880758558880e-1", "1441151880758559200e-1", "1441151880758558880e-1", "1441151880758559200e-1", "2882303761517117760e-1",
"2882303761517118400e-1", "2882303761517117760e-1", "2882303761517118400e-1", "5764607523034235520e-1", "5764607523034236800e-1", "5764607523034235520e-1", "5764607523034236800e-1", "1000000000000000064e0",
"1000000000000000192e0", "1000000000000000064e0", "1000000000000000192e0", "1152921504606847104e0", "1152921504606847360e0", "1152921504606847104e0", "1152921504606847360e0", "2305843009213694208e0",
"2305843009213694720e0", "2305843009213694208e0", "2305843009213694720e0", "4611686018427388416e0", "4611686018427389440e0", "4611686018427388416e0", "4611686018427389440e0", "9223372036854776832e0",
"9223372036854778880e0", "9223372036854776832e0", "9223372036854778880e0", "1000000000000000512e1", "1000000000000001536e1", "1000000000000000512e1", "1000000000000001536e1", "1844674407370955776e1",
"1844674407370957824e1", "1844674407370955776e1", "1844674407370957824e1", "3689348814741911552e1", "3689348814741915648e1", "3689348814741911552e1", "3689348814741915648e1", "7378697629483823104e1",
"7378697629483831296e1", "7378697629483823104e1", "7378697629483831296e1", "1000000000000002048e2", "1000000000000006144e2", "1000000000000002048e2", "1000000000000006144e2", "1475739525896769536e2",
"1475739525896777728e2", "1475739525896769536e2", "1475739525896777728e2", "2951479051793539072e2", "2951479051793555456e2", "2951479051793539072e2", "2951479051793555456e2", "5902958103587078144e2",
"5902958103587110912e2", "5902958103587078144e2", "5902958103587110912e2", "1000000000000008192e3", "1000000000000024576e3", "1000000000000008192e3", "1000000000000024576e3", "1180591620717428736e3",
"1180591620717461504e3", "1180591620717428736e3", "1180591620717461504e3", "2361183241434857472e3", "2361183241434923008e3", "2361183241434857472e3", "2361183241434923008e3", "4722366482869714944e3",
"4722366482869846016e3", "4722366482869714944e3", "4722366482869846016e3", "9444732965739429888e3", "9444732965739692032e3", "9444732965739429888e3", "9444732965739692032e3", "1000000000000065536e4",
"1000000000000196608e4", "1000000000000065536e4", "1000000000000196608e4", "1888946593148043264e4", "1888946593148305408e4", "1888946593148043264e4", "1888946593148305408e4", "3777893186296086528e4",
"3777893186296610816e4", "3777893186296086528e4", "3777893186296610816e4", "7555786372592173056e4", "7555786372593221632e4", "7555786372592173056e4", "7555786372593221632e4", "1000000000000000000e5",
"1000000000000524288e5", "1000000000000000000e5", "1000000000000524288e5", "1511157274519273472e5", "1511157274520322048e5", "1511157274519273472e5", "1511157274520322048e5", "3022314549038546944e5",
"3022314549040644096e5", "3022314549038546944e5", "3022314549040644096e5", "6044629098077093888e5", "6044629098081288192e5", "6044629098077093888e5", "6044629098081288192e5", "1000000000000786432e6",
"1000000000002883584e6", "1000000000000786432e6", "1000000000002883584e6", "1208925819617935360e6", "1208925819622129664e6", "1208925819617935360e6", "1208925819622129664e6", "2417851639235870720e6",
"2417851639244259328e6", "2417851639235870720e6", "2417851639244259328e6", "4835703278471741440e6", "4835703278488518656e6", "4835703278471741440e6", "4835703278488518656e6", "9671406556943482880e6",
"9671406556977037312e6", "9671406556943482880e6", "9671406556977037312e6", "1000000000001835008e7", "1000000000018612224e7", "1000000000001835008e7", "1000000000018612224e7", "1934281311388696576e7",
"1934281311422251008e7", "1934281311388696576e7", "1934281311422251008e7", "3868562622777393152e7", "3868562622844502016e7", "3868562622777393152e7", "3868562622844502016e7", "7737125245554786304e7",
"7737125245689004032e7", "7737125245554786304e7", "7737125245689004032e7", "1000000000043778048e8", "1000000000110886912e8", "1000000000043778048e8", "1000000000110886912e8", "1547425049164644352e8",
"1547425049298862080e8", "1547425049164644352e8", "1547425049298862080e8", "3094850098329288704e8", "3094850098597724160e8", "3094850098329288704e8", "3094850098597724160e8", "6189700196658577408e8",
"6189700197195448320e8", "6189700196658577408e8", "6189700197195448320e8", "1000000000010223616e9", "1000000000278659072e9", "1000000000010223616e9", "1000000000278659072e9", "1237940039439089664e9",
"1237940039975960576e9", "1237940039439089664e9", "1237940039975960576e9", "2475880078878179328e9", "2475880079951921152e9", "2475880078878179328e9", "2475880079951921152e9", "4951760157756358656e9",
"4951760159903842304e9", "4951760157756358656e9", "4951760159903842304e9", "9903520315512717312e9", "9903520319807684608e9", "9903520315512717312e9", "9903520319807684608e9", "1000000000412876800e10",
"1000000002560360448e10", "1000000000412876800e10", "1000000002560360448e10", "1980704065679523840e10", "1980704069974491136e10", "1980704065679523840e10", "1980704069974491136e10", "3961408131359047680e10",
"3961408139948982272e10", "3961408131359047680e10", "3961408139948982272e10", "7922816262718095360e10", "7922816279897964544e10", "7922816262718095360e10", "7922816279897964544e10", "1000000005781585920e11",
"1000000014371520512e11", "1000000005781585920e11", "1000000014371520512e11", "1584563252543619072e11", "1584563269723488256e11", "1584563252543619072e11", "1584563269723488256e11", "3169126505087238144e11",
"3169126539446976512e11", "3169126505087238144e11", "3169126539446976512e11", "6338253010174476288e11", "6338253078893953024e11", "6338253010174476288e11", "6338253078893953024e11", "1000000001486618624e12",
"1000000035846356992e12", "1000000001486618624e12", "1000000035846356992e12", "1267650629522685952e12", "1267650698242162688e12", "1267650629522685952e12", "1267650698242162688e12", "2535301259045371904e12",
"2535301396484325376e12", "2535301259045371904e12", "2535301396484325376e12", "5070602518090743808e12", "5070602792968650752e12", "5070602518090743808e12", "5070602792968650752e12", "1000000121745702912e13",
"1000000259184656384e13", "1000000121745702912e13", "1000000259184656384e13", "1014120668544892928e13", "1014120943422799872e13", "1014120668544892928e13", "1014120943422799872e13", "2028241337089785856e13",
"2028241886845599744e13", "2028241337089785856e13", "2028241886845599744e13", "4056482674179571712e13", "4056483773691199488e13", "4056482674179571712e13", "4056483773691199488e13", "8112965348359143424e13",
"8112967547382398976e13", "8112965348359143424e13", "8112967547382398976e13", "1000000877659947008e14", "1000001977171574784e14", "1000000877659947008e14", "1000001977171574784e14", "1622594389085782016e14",
"1622596588109037568e14", "1622594389085782016e14", "1622596588109037568e14", "3245188778171564032e14", "3245193176218075136e14", "3245188778171564032e14", "3245193176218075136e14", "6490377556343128064e14",
"6490386352436150272e14", "6490377556343128064e14", "6490386352436150272e14", "1000003626439016448e15", "1000008024485527552e15", "1000003626439016448e15", "1000008024485527552e15", "1298079029705834496e15",
"1298087825798856704e15", "1298079029705834496e15", "1298087825798856704e15", "2596158059411668992e15", "2596175651597713408e15", "2596158059411668992e15", "2596175651597713408e15", "5192316118823337984e15",
"5192351303195426816e15", "5192316118823337984e15", "5192351303195426816e15", "1000001427415760896e16", "1000019019601805312e16", "1000001427415760896e16", "1000019019601805312e16", "1038484334387920896e16",
"1038519518760009728e16", "1038484334387920896e16", "1038519518760009728e16", "2076968668775841792e16", "2077039037520019456e16", "2076968668775841792e16", "2077039037520019456e16", "4153937337551683584e16",
"4154078075040038912e16", "4153937337551683584e16", "4154078075040038912e16", "8307874675103367168e16", "8308156150080077824e16", "8307874675103367168e16", "8308156150080077824e16", "1000010223508783104e17",
"1000150960997138432e17", "1000010223508783104e17", "1000150960997138432e17", "1661687525011357696e17", "1661968999988068352e17", "1661687525011357696e17", "1661968999988068352e17", "3323375050022715392e17",
"3323937999976136704e17", "3323375050022715392e17", "3323937999976136704e17", "6646750100045430784e17", "6647875999952273408e17", "6646750100045430784e17", "6647875999952273408e17", "1000080592252960768e18",
"1000643542206382080e18", "1000080592252960768e18", "1000643542206382080e18", "1330250739934560256e18", "1331376639841402880e18", "1330250739934560256e18", "1331376639841402880e18", "2660501479869120512e18",
"2662753279682805760e18", "2660501479869120512e18", "2662753279682805760e18", "5321002959738241024e18", "5325506559365611520e18", "5321002959738241024e18", "5325506559365611520e18", "1000925017183092736e19",
"1003176816996777984e19", "1000925017183092736e19", "1003176816996777984e19", "1065101311873122304e19", "1069604911500492800e19", "1065101311873122304e19", "1069604911500492800e19", "2130202623746244608e19",
"2139209823000985600e19", "2130202623746244608e19", "2139209823000985600e19", "4260405247492489216e19", "4278419646001971200e19", "4260405247492489216e19", "4278419646001971200e19", "8520810494984978432e19",
"8556839292003942400e19", "8520810494984978432e19", "8556839292003942400e19", "1017813515785732096e20", "1035827914295214080e20", "1017813515785732096e20", "1035827914295214080e20", "1711367858400788480e20",
"1747396655419752448e20", "1711367858400788480e20", "1747396655419752448e20", "3422735716801576960e20", "3494793310839504896e20", "3422735716801576960e20", "3494793310839504896e20", "6845471433603153920e20",
"6989586621679009792e20", "6845471433603153920e20", "6989586621679009792e20", "1044835113549955072e21", "1116892707587883008e21", "1044835113549955072e21", "1116892707587883008e21", "1369094286720630784e21",
"1513209474796486656e21", "1369094286720630784e21", "1513209474796486656e21", "2738188573441261568e21", "3026418949592973312e21", "2738188573441261568e21", "3026418949592973312e21", "5476377146882523136e21",
"6052837899185946624e21", "5476377146882523136e21", "6052837899185946624e21", "1008806316530991104e22", "1008806316530991104e22", "1441151880758558720e22", "2017612633061982208e22", "1441151880758558720e22",
"2017612633061982208e22", "2882303761517117440e22", "4035225266123964416e22", "2882303761517117440e22", "4035225266123964416e22", "5764607523034234880e22", "8070450532247928832e22", "5764607523034234880e22",
"8070450532247928832e22", "1152921504606846976e23", "1152921504606846976e23", "2305843009213693952e23", "2305843009213693952e23", "4611686018427387904e23", "4611686018427387904e23", "9223372036854775808e23",
"9223372036854775808e23", "5446136629611347657e28", "7202841595437629673e29", "9464705006104218967e36", "2002187222588123953e40", "4004374445176247906e40", "8008748890352495812e40", "7618860460644046007e70",
"7322325862592278999e74", "2377934783557134477e78", "3963224639261890795e78", "4755869567114268954e78", "7926449278523781590e78", "9511739134228537908e78", "1585289855704756318e79", "3170579711409512636e79",
"6341159422819025272e79", "7386254617452229213e107", "9789510569809118153e108", "7866905807923607001e110", "8643988913946659879e115", "5324541270703778315e116", "1064908254140755663e117", "2129816508281511326e117",
"4259633016563022652e117", "8519266033126045304e117", "7120190517612959703e120", "2844904250625471197e124", "5689808501250942394e124", "5529436763613147623e138", "8091380584855667499e140", "4440296120107365493e150",
"8880592240214730986e150", "9299437776150998265e157", "1859887555230199653e158", "3719775110460399306e158", "7439550220920798612e158", "8818450791606492727e162", "8128592138429072677e163", "8680479060971008717e164",
"8107527480827851081e169", "4645835384460091665e186", "9291670768920183330e186", "1858334153784036666e187", "3716668307568073332e187", "7433336615136146664e187", "8531063483820583261e195", "6802601037806061975e198",
"9523641452928486765e198", "1360520207561212395e199", "1904728290585697353e199", "2721040415122424790e199", "3809456581171394706e199", "5442080830244849580e199", "7618913162342789412e199", "1088416166048969916e200",
"2176832332097939832e200", "4353664664195879664e200", "8707329328391759328e200", "4234048706695072077e203", "8468097413390144154e203", "3007273377140036463e209", "6014546754280072926e209", "3916540893494438105e225",
"7833081786988876210e225", "1566616357397775242e226", "3133232714795550484e226", "6266465429591100968e226", "7555784487484408317e227", "6496515517405105799e233", "5092077246936020273e237", "5993034052309126131e240",
"5373990252698096211e263", "9723520580679062213e267", "4499054460863230815e282", "8998108921726461630e282", "1799621784345292326e283", "3599243568690584652e283", "7198487137381169304e283", "8392591456304476166e-327",
"97338774138954421e-289",
};
static const char *const MID_F[] = {
"700649227e-54", "700649233e-54", "210194770e-53", "490454463e-53", "350324616e-53", "630584309e-53", "770714155e-53", "217201262e-52",
"175162308e-52", "413383047e-52", "371344093e-52", "609564832e-52", "567525878e-52", "461727844e-51", "657909629e-51", "736382343e-51",
"193449253e-50", "309336636e-50", "464460376e-50", "696235142e-50", "580347759e-50", "185693066e-49", "363629945e-49", "379142319e-49",
"735016077e-49", "557079198e-49", "928465330e-49", "165572522e-48", "351265588e-48", "278539599e-48", "609684643e-48", "536958654e-48",
"795377709e-48", "981070775e-48", "123948983e-47", "371846949e-47", "320163138e-47", "764275259e-47", "120838738e-46", "241677476e-46",
"848981411e-46", "483354952e-46", "966709904e-46", "689521891e-44", "974060831e-44", "380328313e-43", "760656626e-43", "522597783e-43",
"465689995e-41", "693392269e-41", "796815715e-41", "213188853e-40", "159363143e-40", "399464851e-40", "318726286e-40", "798929702e-40",
"637452572e-40", "772016847e-39", "642835143e-39", "793547131e-39", "467516165e-38", "750486563e-38", "187006466e-37", "374012932e-37",
"553637301e-37", "573322893e-37", "260332633e-36", "411906365e-36", "823812730e-36", "164762546e-35", "329525092e-35", "550291283e-35",
"659050184e-35", "879816375e-35", "175963275e-34", "483086909e-34", "351926550e-34", "655801795e-34", "703853100e-34", "131160359e-33",
"140770620e-33", "262320718e-33", "281541240e-33", "524641436e-33", "563082480e-33", "835013459e-33", "911895547e-33", "112616496e-32",
"225232992e-32", "609780467e-32", "450465984e-32", "741617485e-32", "148323497e-31", "477943449e-31", "296646994e-31", "774590443e-31",
"593293988e-31", "173591802e-30", "347183604e-30", "455961477e-30", "694367208e-30", "911922954e-30", "860254357e-30", "230065737e-29",
"528480059e-29", "460131474e-29", "681857217e-29", "920262948e-29", "375102901e-28", "320424033e-28", "750205802e-28", "640848066e-28",
"347763467e-27", "508740401e-27", "933932665e-27", "186786533e-26", "373573066e-26", "830694269e-26", "747146132e-26", "101258533e-25",
"202517066e-25", "335236665e-25", "628177203e-25", "670473330e-25", "134094666e-24", "343487067e-24", "268189332e-24", "686974134e-24",
"536378664e-24", "890866267e-23", "770389891e-23", "190220891e-22", "380441782e-22", "760883564e-22", "800508985e-22", "160101797e-21",
"424509779e-21", "320203594e-21", "600781767e-21", "640407188e-21", "248237791e-20", "496475582e-20", "702990899e-20", "953325743e-20",
"206515317e-19", "554467635e-19", "413030634e-19", "605373425e-19", "684624267e-19", "110893527e-18", "121074685e-18", "242149370e-18",
"302137107e-18", "484298740e-18", "604274214e-18", "968597480e-18", "193719496e-17", "387438992e-17", "551991719e-17", "774877984e-17",
"761121699e-17", "128229245e-16", "256458490e-16", "512916980e-16", "510165723e-16", "682972221e-16", "677469707e-16", "102583396e-15",
"137694947e-15", "275389894e-15", "550779788e-15", "612749119e-15", "315873001e-14", "631746002e-14", "477805429e-14", "893641527e-14",
"955610858e-14", "265092267e-13", "369850477e-13", "739700954e-13", "801670285e-13", "160334057e-12", "411753761e-12", "320668114e-12",
"579366897e-12", "641336228e-12", "139913772e-11", "104226853e-11", "230999419e-11", "208453706e-11", "413170713e-11", "416907412e-11",
"826341426e-11", "784986699e-11", "100670713e-10", "104407412e-10", "162278926e-10", "159986699e-10", "314792227e-10", "319973398e-10",
"629584454e-10", "630181171e-10", "101901602e-9", "101223398e-9", "125678204e-9", "126274921e-9", "251356408e-9", "250596717e-9",
"500759691e-9", "501193434e-9", "100369066e-8", "100021559e-8", "200347507e-8", "200043118e-8", "400304389e-8", "400086236e-8",
"800218153e-8", "800172472e-8", "100070014e-7", "100008111e-7", "160061903e-7", "160016222e-7", "320045681e-7", "320032444e-7",
"640013237e-7", "640064888e-7", "100014431e-6", "100001194e-6", "128013237e-6", "128002388e-6", "256010849e-6", "256004776e-6",
"512006073e-6", "512009552e-6", "100001474e-5", "100001651e-5", "102402948e-5", "102400177e-5", "204802771e-5", "204800354e-5",
"409602417e-5", "409600708e-5", "819201709e-5", "819201416e-5", "100000542e-4", "100000083e-4", "163840459e-4", "163840166e-4",
"327680293e-4", "327680332e-4", "655360586e-4", "655360039e-4", "100000043e-3", "100000082e-3", "131072086e-3", "131072039e-3",
"262144047e-3", "262144078e-3", "524288094e-3", "524288031e-3", "100000022e-2", "100000003e-2", "104857619e-2", "104857606e-2",
"209715213e-2", "209715212e-2", "419430425e-2", "419430425e-2", "838860850e-2", "838860850e-2", "100000005e-1", "100000005e-1",
"167772170e-1", "167772170e-1", "335544340e-1", "335544340e-1", "671088680e-1", "671088680e-1", "100000004e0", "100000004e0",
"134217736e0", "134217736e0", "268435472e0", "268435472e0", "536870944e0", "536870944e0", "100000016e1", "100000016e1",
"107374240e1", "107374240e1", "214748480e1", "214748480e1", "429496960e1", "429496960e1", "858993920e1", "858993920e1",
"100000128e2", "100000128e2", "171798784e2", "171798784e2", "343597568e2", "343597568e2", "687195136e2", "687195136e2",
"100000256e3", "100000256e3", "137440256e3", "137440256e3", "274880512e3", "274880512e3", "549761024e3", "549761024e3",
"100001792e4", "100001792e4", "109957120e4", "109957120e4", "219914240e4", "219914240e4", "439828480e4", "439828480e4",
"879656960e4", "879656960e4", "100024320e5", "100024320e5", "175931392e5", "175931392e5", "351862784e5", "351862784e5",
"703725568e5", "703725568e5", "100073472e6", "100073472e6", "140902400e6", "140902400e6", "281804800e6", "281804800e6",
"563609600e6", "563609600e6", "100401152e7", "100401152e7", "112721920e7", "112721920e7", "225443840e7", "225443840e7",
"450887680e7", "450887680e7", "901775360e7", "901775360e7", "102760448e8", "102760448e8", "180355072e8", "180355072e8",
"360710144e8", "360710144e8", "721420288e8", "721420288e8", "109051904e9", "109051904e9", "150994944e9", "150994944e9",
"301989888e9", "301989888e9", "603979776e9", "603979776e9", "100663296e10", "100663296e10", "201326592e10", "201326592e10",
"383131465e10", "402653184e10", "766262930e10", "805306368e10", "153252586e11", "306505172e11", "326026891e11", "402166323e11",
"441209761e11", "804332646e11", "882419522e11", "579429205e12", "869927513e12", "763721797e12", "115885841e13", "163364931e13",
"258323111e13", "326729862e13", "516646222e13", "653459724e13", "964885693e13", "144373295e14", "220339839e14", "288746590e14",
"440679678e14", "577493180e14", "881359356e14", "115498636e15", "230997272e15", "487771563e15", "461994544e15", "949766107e15",
"898212069e15", "374751039e16", "775279097e16", "723725059e16", "304956235e17", "609912470e17", "584135451e17", "121982494e18",
"243964988e18", "487929976e18", "316694311e18", "804624287e18", "633388622e18", "993166857e19", "239729931e20", "479459862e20",
"691498745e20", "958919724e20", "896981543e20", "138299749e21", "276599498e21", "480771079e21", "346404981e21", "754748143e21",
"692809962e21", "537664439e25", "124076409e26", "248152818e26", "701205807e26", "496305636e26", "992611272e26", "165435212e27",
"330870424e27", "652332781e27", "661740848e27", "866641019e27", "885457153e27", "438024543e28", "876049086e28", "616997587e28",
"162957353e29", "325914706e29", "649028969e29", "651829412e29", "364912453e30", "700649232158e-57", "700649232163e-57", "210194769649e-56",
"490454462514e-56", "350324616081e-56", "770714155379e-56", "630584308946e-56", "595551847338e-55", "987915417349e-55", "931863478776e-55", "301979819062e-54",
"685935598287e-54", "465931739388e-54", "849887518613e-54", "145264904655e-51", "129906673486e-51", "435794713965e-51", "420436482796e-51", "986137870247e-51",
"471695069777e-50", "384536126984e-50", "138603222840e-49", "277206445680e-49", "748901515457e-49", "554412891360e-49", "972443120485e-49", "110882578272e-48",
"194488624097e-48", "221765156544e-48", "388977248194e-48", "443530313088e-48", "777954496388e-48", "887060626176e-48", "188322738214e-47", "376645476428e-47",
"805231028835e-47", "753290952856e-47", "107538336439e-46", "161046205767e-46", "215076672878e-46", "268061944423e-46", "430153345756e-46", "536123888846e-46",
"860306691512e-46", "150449151458e-45", "300898302916e-45", "204479618569e-45", "601796605832e-45", "408959237138e-45", "817918474276e-45", "101075584297e-44",
"202151168594e-44", "404302337188e-44", "702872190129e-44", "808604674376e-44", "102006964287e-43", "204013928574e-43", "302295372901e-43", "498858261555e-43",
"604590745802e-43", "997716523110e-43", "199543304622e-42", "399086609244e-42", "516740757363e-42", "798173218488e-42", "267751460719e-41", "455373101469e-41",
"535502921438e-41", "910746202938e-41", "690681397707e-41", "380324445169e-40", "260246595089e-40", "760648890338e-40", "520493190178e-40", "368316660161e-39",
"272254380097e-39", "416347800193e-39", "544508760194e-39", "832695600386e-39", "230596224103e-38", "461192448206e-38", "704534640385e-38", "858421296285e-38",
"140906928077e-37", "171684259257e-37", "281813856154e-37", "343368518514e-37", "563627712308e-37", "530441443361e-37", "143984661195e-36", "168606526139e-36",
"287969322390e-36", "337213052278e-36", "575938644780e-36", "493508645945e-36", "987017291890e-36", "115187728956e-35", "230375457912e-35", "197403458378e-35",
"460750915824e-35", "394806916756e-35", "707612373503e-35", "789613833512e-35", "299445241403e-34", "598890482806e-34", "221734171821e-33", "443468343642e-33",
"886936687284e-33", "525283066517e-31", "545532108639e-31", "626528277127e-31", "141504889123e-30", "303020414637e-30", "283009778246e-30", "606040829274e-30",
"566019556492e-30", "230409949875e-29", "634437169391e-29", "460819899750e-29", "828065075423e-29", "748022529859e-29", "184327959900e-28", "296502576241e-28",
"368655919800e-28", "593005152482e-28", "563694569959e-28", "147462367920e-27", "294924735840e-27", "566850250761e-27", "589849471680e-27", "117969894336e-26",
"235939788672e-26", "370233760201e-26", "471879577344e-26", "740467520402e-26", "943759154688e-26", "168422667509e-25", "336845335018e-25", "673690670036e-25",
"383885238593e-24", "577088859555e-24", "953408088155e-24", "973584114803e-24", "115417771911e-23", "190681617631e-23", "270989470013e-23", "381363235262e-23",
"541978940026e-23", "762726470524e-23", "336411443147e-20", "320365722839e-20", "672822886294e-20", "640731445678e-20", "904937147439e-20", "312342862685e-18",
"563588599789e-18", "624685725370e-18", "124937145074e-17", "249874290148e-17", "438651454715e-17", "499748580296e-17", "877302909430e-17", "999497160592e-17",
"175460581886e-16", "282303089989e-16", "350921163772e-16", "412018289353e-16", "701842327544e-16", "671448688081e-16", "106780538772e-15", "106842508103e-15",
"152525921294e-15", "122132281831e-15", "274534264463e-15", "244264563662e-15", "518550950801e-15", "488529127324e-15", "977058254648e-15", "103511888301e-14",
"104007642949e-14", "200920260977e-14", "195808254648e-14", "395737006329e-14", "391616509296e-14", "785370497033e-14", "783233018592e-14", "100326850079e-13",
"101089165546e-13", "156708387658e-13", "157012315467e-13", "313416775316e-13", "312803927809e-13", "625612847507e-13", "625607855618e-13", "100037869066e-12",
"100157443434e-12", "125124566257e-12", "125119574368e-12", "250004991889e-12", "250239148736e-12", "500009983778e-12", "500234156847e-12", "100009983778e-11",
"100038844347e-11", "200019967556e-11", "200028860569e-11", "400039935112e-11", "400008893013e-11", "800031042099e-11", "800017786026e-11", "100000872612e-10",
"100008893013e-10", "160001745224e-10", "160008020401e-10", "320003490448e-10", "320006275177e-10", "640006980896e-10", "640002784729e-10", "100001537323e-9",
"100000415802e-9", "128001121521e-9", "128000831604e-9", "256000289917e-9", "256001663208e-9", "512000579834e-9", "512001373291e-9", "100000289917e-8",
"100000100708e-8", "102400189209e-8", "102400201416e-8", "204800378418e-8", "204800012207e-8", "409600366211e-8", "409600024414e-8", "819200341797e-8",
"819200048828e-8", "100000053711e-7", "100000024414e-7", "163840029297e-7", "163840048828e-7", "327680058594e-7", "327680019531e-7", "655360039063e-7",
"655360039062e-7", "100000011719e-6", "100000003906e-6", "131072007813e-6", "131072007812e-6", "262144015625e-6", "262144015625e-6", "524288031250e-6",
"524288031250e-6", "100000003125e-5", "100000003125e-5", "104857606250e-5", "104857606250e-5", "209715212500e-5", "209715212500e-5", "419430425000e-5",
"419430425000e-5", "838860850000e-5", "838860850000e-5", "100000005000e-4", "100000005000e-4", "167772170000e-4", "167772170000e-4", "335544340000e-4",
"335544340000e-4", "671088680000e-4", "671088680000e-4", "100000004000e-3", "100000004000e-3", "134217736000e-3", "134217736000e-3", "268435472000e-3",
"268435472000e-3", "536870944000e-3", "536870944000e-3", "100000003200e-2", "100000003200e-2", "107374188800e-2", "107374188800e-2", "214748377600e-2",
"214748377600e-2", "429496755200e-2", "429496755200e-2", "858993510400e-2", "858993510400e-2", "100000005120e-1", "100000005120e-1", "171798702080e-1",
"171798702080e-1", "343597404160e-1", "343597404160e-1", "687194808320e-1", "687194808320e-1", "100000002048e0", "100000002048e0", "137438961664e0",
"137438961664e0", "274877923328e0", "274877923328e0", "549755846656e0", "549755846656e0", "100000022528e1", "100000022528e1", "109951221760e1",
"109951221760e1", "219902443520e1", "219902443520e1", "439804887040e1", "439804887040e1", "879609774080e1", "879609774080e1", "100000202752e2",
"100000202752e2", "175921954816e2", "175921954816e2", "351843909632e2", "351843909632e2", "703687819264e2", "703687819264e2", "100000071680e3",
"100000071680e3", "140738822144e3", "140738822144e3", "281477644288e3", "281477644288e3", "562955288576e3", "562955288576e3", "100002693120e4",
"100002693120e4", "112596090880e4", "112596090880e4", "225192181760e4", "225192181760e4", "450384363520e4", "450384363520e4", "900768727040e4",
"900768727040e4", "100008984576e5", "100008984576e5", "180153745408e5", "180153745408e5", "360307490816e5", "360307490816e5", "720614981632e5",
"720614981632e5", "100059316224e6", "100059316224e6", "144284057600e6", "144284057600e6", "288568115200e6", "288568115200e6", "577136230400e6",
"577136230400e6", "100126425088e7", "100126425088e7", "115427246080e7", "115427246080e7", "230854492160e7", "230854492160e7", "461708984320e7",
"461708984320e7", "923417968640e7", "923417968640e7", "100931731456e8", "100931731456e8", "184683593728e8", "184683593728e8", "369367187456e8",
"369367187456e8", "738734374912e8", "738734374912e8", "111669149696e9", "111669149696e9", "154618822656e9", "154618822656e9", "309237645312e9",
"309237645312e9", "618475290624e9", "618475290624e9", "103079215104e10", "103079215104e10", "206158430208e10", "206158430208e10", "412316860416e10",
"355428065463e10", "824633720832e10", "710856130926e10", "176304503157e11", "352609006314e11", "295720211361e11", "705218012628e11", "591440422722e11",
"959253615155e11", "845476025249e11", "129665843535e12", "191850723031e12", "259331687070e12", "316220482023e12", "518663374140e12", "632440964046e12",
"103732674828e13", "207465349656e13", "274946313695e13", "549892627390e13", "109978525478e14", "219957050956e14", "419953156851e14", "439914101912e14",
"839906313702e14", "879828203824e14", "139984385617e15", "279968771234e15", "179957829777e15", "459926601011e15", "359915659554e15", "919853202022e15",
"719831319108e15", "163968452113e16", "251961583303e16", "327936904226e16", "503923166606e16", "579898487529e16", "146369825875e17", "216764330827e17",
"433528661654e17", "867057323308e17", "117095860700e18", "234191721400e18", "392408121877e18", "708840922831e18", "187353377120e19", "374706754240e19",
"744243658105e19", "749413508480e19", "148848731621e20", "149882701696e20", "296663493167e20", "298731433317e20", "592293016259e20", "596428896559e20",
"473611075471e23", "478905002255e23", "947222150942e23", "957810004510e23", "286019519657e24", "191562000902e24", "572039039314e24", "383124001804e24",
"766248003608e24", "596224469849e25", "179697705973e26", "255263720977e26", "359395411946e26", "510527441954e26", "718790823892e26", "243837450591e27",
"487674901182e27", "614659132923e27", "70064923216240846e-62", "70064923216240854e-62", "21019476964872256e-61", "35032461608120427e-61", "35032461608120426e-61", "77071415537864939e-61",
"63058430894616768e-61", "10509738482436128e-60", "28726618518658750e-60", "30127916982983567e-60", "48344797019206189e-60", "49746095483531006e-60", "90383750948950701e-60", "16745516648681564e-59",
"11000192944949814e-59", "30618371445497253e-59", "50236549946044692e-59", "44491226242312942e-59", "77982259539676070e-59", "72236935835944320e-59", "22820145491529646e-58", "38416597399464860e-58",
"37842065029091685e-58", "68460436474588938e-58", "83482356012150977e-58", "11410072745764823e-57", "18978485751583160e-57", "26661805231476132e-57", "41798631243112806e-57", "49481950723005778e-57",
"64618776734642452e-57", "13307921320923139e-56", "24717994066687962e-56", "62743909454299063e-56", "39923763962769417e-56", "74153982200063886e-56", "77949679350380518e-56", "12358997033343981e-55",
"22625764375050829e-55", "15400151012560272e-55", "40118145079248234e-55", "32892531716757677e-55", "67877293125152487e-55", "60651679762661930e-55", "21693980069638060e-54", "43387960139276120e-54",
"39889483998436639e-54", "86775920278552240e-54", "76280491856033797e-54", "17355184055710448e-53", "24306404121227091e-53", "48612808242454182e-53", "52019819950969025e-53", "79824700213035597e-53",
"86638723630065283e-53", "10403963990193805e-52", "20807927980387610e-52", "34047258656182855e-52", "41615855960775220e-52", "68094517312365710e-52", "74153966841832717e-52", "13618903462473142e-51",
"16646342384310088e-51", "27237806924946284e-51", "33292684768620176e-51", "54475613849892568e-51", "48425307692011791e-51", "96850615384023582e-51", "18159147508069938e-50", "30264331509624607e-50",
"42370429848337899e-50", "54478356861368437e-50", "84740859696675798e-50", "78690553538795021e-50", "13317256774879795e-49", "26634513549759590e-49", "44792746720670905e-49", "53269027099519180e-49",
"66582626525764483e-49", "83535187283461033e-49", "10653805419903836e-48", "17917098688268362e-48", "21307610839807672e-48", "35834197376536724e-48", "42615221679615344e-48", "71668394753073448e-48",
"62227576443653361e-48", "16221842612498707e-47", "18934252333730155e-47", "32443685224997414e-47", "23002866915577327e-47", "44596913255648949e-47", "46005733831154654e-47", "79753008201877811e-47",
"92011467662309308e-47", "15147401866984124e-46", "20290457194345879e-46", "50021732698111845e-46", "40580914388691758e-46", "69466897547154301e-46", "71721010467963429e-46", "10004346539622369e-45",
"20008693079244738e-45", "22347679325290581e-45", "25898595356977703e-45", "30576567849069389e-45", "51797190713955406e-45", "61153135698138778e-45", "14118790801511773e-44", "28254556268070889e-44",
"28237581603023546e-44", "56509112536141778e-44", "56475163206047092e-44", "94187512448585411e-44", "94119613788396039e-44", "33895282722656661e-43", "67790565445313322e-43", "79021094359342837e-43",
"11298427574218887e-42", "22596855148437774e-42", "24842960931243677e-42", "45193710296875548e-42", "47439816079681451e-42", "58012174613028161e-42", "66996597744251773e-42", "40833132807400303e-41",
"75191216418656019e-41", "31371496406691325e-40", "62742992813382650e-40", "12548598562676530e-39", "25097197125353060e-39", "50194394250706120e-39", "58275442765301283e-39", "10038878850141224e-38",
"20077757700282448e-38", "19425147588433761e-38", "26552806896427035e-38", "25247586672729661e-38", "53105613792854070e-38", "50495173345459322e-38", "92608519081570279e-38", "10621122758570814e-37",
"21242245517141628e-37", "22918611039011301e-37", "42484491034283256e-37", "44160856556152929e-37", "83292616546696839e-37", "88321713112305858e-37", "17329069518087237e-36", "32981773514304801e-36",
"36334504558044147e-36", "65963547028609602e-36", "70992643594218621e-36", "13527982510095855e-35", "27055965020191710e-35", "44534486526362959e-35", "89068973052725918e-35", "10822386008076684e-34",
"21644772016153368e-34", "28732330542061383e-34", "43289544032306736e-34", "45397332581989859e-34", "86579088064613472e-34", "88686876614296595e-34", "17737375322859319e-33", "44707055737488339e-33",
"35474750645718638e-33", "68841712741754153e-33", "70949501291437276e-33", "28801358226511535e-32", "55494927903339947e-32", "57602716453023070e-32", "11520543290604614e-31", "23041086581209228e-31",
"37391217018104125e-31", "46082173162418456e-31", "74782434036208250e-31", "92164346324836912e-31", "14956486807241650e-30", "27227746187514449e-30", "29912973614483300e-30", "40394081376776865e-30",
"59825947228966600e-30", "66726751755301697e-30", "11965189445793320e-29", "16157632550710746e-29", "23930378891586640e-29", "32315265101421492e-29", "47860757783173280e-29", "64630530202842984e-29",
"95721515566346560e-29", "14061410998252033e-28", "19144303113269312e-28", "38288606226538624e-28", "41590600321356197e-28", "76577212453077248e-28", "83181200642712394e-28", "11909527617565141e-27",
"23819055235130282e-27", "32612081438121443e-27", "47638110470260564e-27", "65224162876242886e-27", "80250191908382007e-27", "54888301903588399e-24", "60952171310191261e-24", "11247165687677807e-23",
"13268455489878761e-23", "22494331375355614e-23", "26536910979757522e-23", "33067733795633103e-23", "53073821959515044e-23", "54214538636188081e-23", "96508148317298037e-23", "10158477721233794e-22",
"11299194397906831e-22", "20316955442467588e-22", "20214203004798037e-22", "38249725093919551e-22", "40428406009596074e-22", "76499450187839102e-22", "78472626228176523e-22", "10116332759935176e-21",
"10387665042799199e-21", "15464293937839102e-21", "15530121345364023e-21", "30928587875678204e-21", "30583405532524921e-21", "61380338593153283e-21", "61166811065049842e-21", "10043120346381329e-20",
"10079407729790546e-20", "12266111298231408e-20", "12243318633409217e-20", "24436855164822191e-20", "24486637266818434e-20", "48873710329644382e-20", "48877907101996243e-20", "97747420659288764e-20",
"97660446772351861e-20", "10001945192925632e-19", "10006141965277493e-19", "19546126713976264e-19", "19535446772351861e-19", "39073179941624403e-19", "39070893544703722e-19", "78127286396920681e-19",
"78141787089407444e-19", "10001372080296278e-18", "10002900380641222e-18", "15627286396920681e-18", "15626528300344944e-18", "31250758096575737e-18", "31253056600689888e-18", "62501516193151474e-18",
"62502298504114151e-18", "10000605508685112e-17", "10000615194439888e-17", "12500753253698349e-17", "12500009685754776e-17", "25000743567943573e-17", "25000019371509552e-17", "50000724196434021e-17",
"50000038743019104e-17", "10000113844871521e-16", "10000038743019104e-16", "20000075101852417e-16", "20000077486038208e-16", "40000150203704834e-16", "40000002384185791e-16", "80000147819519043e-16",
"80000004768371582e-16", "10000028133392334e-15", "10000002384185791e-15", "16000025749206543e-15", "16000004768371582e-15", "32000020980834961e-15", "32000009536743164e-15", "64000011444091797e-15",
"64000019073486328e-15", "10000002670288086e-14", "10000003433227539e-14", "12800005340576172e-14", "12800000762939453e-14", "25600004577636719e-14", "25600001525878906e-14", "51200003051757813e-14",
"51200003051757812e-14", "10000000915527344e-13", "10000000305175781e-13", "10240000610351563e-13", "10240000610351562e-13", "20480001220703125e-13", "20480001220703125e-13", "40960002441406250e-13",
"40960002441406250e-13", "81920004882812500e-13", "81920004882812500e-13", "10000000488281250e-12", "10000000488281250e-12", "16384000976562500e-12", "16384000976562500e-12", "32768001953125000e-12",
"32768001953125000e-12", "65536003906250000e-12", "65536003906250000e-12", "10000000390625000e-11", "10000000390625000e-11", "13107200781250000e-11", "13107200781250000e-11", "26214401562500000e-11",
"26214401562500000e-11", "52428803125000000e-11", "52428803125000000e-11", "10000000312500000e-10", "10000000312500000e-10", "10485760625000000e-10", "10485760625000000e-10", "20971521250000000e-10",
"20971521250000000e-10", "41943042500000000e-10", "41943042500000000e-10", "83886085000000000e-10", "83886085000000000e-10", "10000000500000000e-9", "10000000500000000e-9", "16777217000000000e-9",
"16777217000000000e-9", "33554434000000000e-9", "33554434000000000e-9", "67108868000000000e-9", "67108868000000000e-9", "10000000400000000e-8", "10000000400000000e-8", "13421773600000000e-8",
"13421773600000000e-8", "26843547200000000e-8", "26843547200000000e-8", "53687094400000000e-8", "53687094400000000e-8", "10000000320000000e-7", "10000000320000000e-7", "10737418880000000e-7",
"10737418880000000e-7", "21474837760000000e-7", "21474837760000000e-7", "42949675520000000e-7", "42949675520000000e-7", "85899351040000000e-7", "85899351040000000e-7", "10000000512000000e-6",
"10000000512000000e-6", "17179870208000000e-6", "17179870208000000e-6", "34359740416000000e-6", "34359740416000000e-6", "68719480832000000e-6", "68719480832000000e-6", "10000000204800000e-5",
"10000000204800000e-5", "13743896166400000e-5", "13743896166400000e-5", "27487792332800000e-5", "27487792332800000e-5", "54975584665600000e-5", "54975584665600000e-5", "10000000286720000e-4",
"10000000286720000e-4", "10995116933120000e-4", "10995116933120000e-4", "21990233866240000e-4", "21990233866240000e-4", "43980467732480000e-4", "43980467732480000e-4", "87960935464960000e-4",
"87960935464960000e-4", "10000000352256000e-3", "10000000352256000e-3", "17592187092992000e-3", "17592187092992000e-3", "35184374185984000e-3", "35184374185984000e-3", "70368748371968000e-3",
"70368748371968000e-3", "10000000457113600e-2", "10000000457113600e-2", "14073749674393600e-2", "14073749674393600e-2", "28147499348787200e-2", "28147499348787200e-2", "56294998697574400e-2",
"56294998697574400e-2", "10000000205455360e-1", "10000000205455360e-1", "11258999739514880e-1", "11258999739514880e-1", "22517999479029760e-1", "22517999479029760e-1", "45035998958059520e-1",
"45035998958059520e-1", "90071997916119040e-1", "90071997916119040e-1", "10000000809435136e0", "10000000809435136e0", "18014399583223808e0", "18014399583223808e0", "36028799166447616e0",
"36028799166447616e0", "72057598332895232e0", "72057598332895232e0", "10000000272564224e1", "10000000272564224e1", "14411526538526720e1", "14411526538526720e1", "28823053077053440e1",
"28823053077053440e1", "57646106154106880e1", "57646106154106880e1", "10000015304949760e2", "10000015304949760e2", "11529221230821376e2", "11529221230821376e2", "23058442461642752e2",
"23058442461642752e2", "46116884923285504e2", "46116884923285504e2", "92233769846571008e2", "92233769846571008e2", "10000126974099456e3", "10000126974099456e3", "18446918896058368e3",
"18446918896058368e3", "36893837792116736e3", "36893837792116736e3", "73787675584233472e3", "73787675584233472e3", "10000333132529664e4", "10000333132529664e4", "14758194823823360e4",
"14758194823823360e4", "29516389647646720e4", "29516389647646720e4", "59032779295293440e4", "59032779295293440e4", "10000058254622720e5", "10000058254622720e5", "11806555859058688e5",
"11806555859058688e5", "23613111718117376e5", "23613111718117376e5", "47226223436234752e5", "47226223436234752e5", "94452446872469504e5", "94452446872469504e5", "10001157766250496e6",
"10001157766250496e6", "18911599997747200e6", "18911599997747200e6", "37823199995494400e6", "37823199995494400e6", "75646399990988800e6", "75646399990988800e6", "10027546045317120e7",
"10027546045317120e7", "15129279998197760e7", "15129279998197760e7", "30258559996395520e7", "30258559996395520e7", "60517119992791040e7", "60517119992791040e7", "10273836649938944e8",
"10273836649938944e8", "12103423998558208e8", "12103423998558208e8", "24206847997116416e8", "24206847997116416e8", "48413695994232832e8", "48413695994232832e8", "96827391988465664e8",
"96827391988465664e8", "10133099161583616e9", "10133099161583616e9", "20266198323167232e9", "20266198323167232e9", "40532396646334464e9", "40532396646334464e9", "81064793292668928e9",
"78867684616397715e9", "13510798882111488e10", "13510798882111488e10", "20255260095684425e10", "15773536923279543e10", "40510520191368850e10", "31547073846559086e10", "81021040382737700e10",
"63094147693118172e10", "16204208076547540e11", "32408416153095080e11", "64816832306190160e11", "12963366461238032e12", "25926732922476064e12", "51853465844952128e12", "84254503005269819e12",
"11361922616111247e13", "22723845232222494e13", "24780736178020535e13", "37592286939034815e13", "49561472356041070e13", "75184573878069630e13", "67329170352659457e13", "15036914775613926e14",
"19824588942416428e14", "30073829551227852e14", "39649177884832856e14", "60147659102455704e14", "61867603910650535e14", "12373520782130107e15", "27545214012785317e15", "24747041564260214e15",
"55090428025570634e15", "49494083128520428e15", "98346449089176297e15", "87153759295075885e15", "17430751859015177e16", "57888600474095737e16", "34861503718030354e16", "69723007436060708e16",
"62864721356929083e17", "14067213413145667e18", "28134426826291334e18", "32745577685143797e18", "45937313093836627e18", "55159614811541553e18", "91874626187673254e18", "15164539185806727e19",
"20441233349283859e19", "30329078371613454e19", "40882466698567718e19", "60658156743226908e19", "70989697301972949e19", "90765387346632139e19", "30550926139821677e20", "38461202157685353e20",
"61101852279643354e20", "58236892202344543e20", "34506064148753515e21", "46290363432028975e21", "64129041843982273e21", "92580726864057950e21", "95770145915436977e21", "13802425659501406e22",
"18516145372811590e22", "32149204292098423e22", "37032290745623180e22", "64298408584196846e22", "7006492321624085343e-64", "7006492321624085355e-64", "2101947696487225607e-63", "2101947696487225606e-63",
"3503246160812042678e-63", "3503246160812042677e-63", "6305843089461676820e-63", "6305843089461676818e-63", "2172012619703466460e-62", "3713440930460765238e-62", "2312142466135948167e-62", "5254869241218064016e-62",
"5394999087650545723e-62", "9739024327057478643e-62", "9879154173489960350e-62", "1758629572727645424e-61", "2193032096668338716e-61", "2963746252046988105e-61", "4168862931366330786e-61", "3734460407425637494e-61",
"7349810445383665537e-61", "8120524600762314926e-61", "1886848382213366186e-60", "2874763799562362221e-60", "7636375981338090628e-60", "8624291398687086663e-60", "1338590358046281507e-59", "3102965254477658681e-59",
"2646562344647065761e-59", "5323743060739628775e-59", "4867340150909035855e-59", "9308895763432976043e-59", "2015396496838203280e-58", "1969756205855143988e-58", "4981440878366684085e-58", "3962332557201817622e-58",
"7947485259895164890e-58", "7901844968912105598e-58", "1387957402295212650e-57", "2384245577968549467e-57", "1981166278600908811e-57", "2977454454274245628e-57", "3570663330579941789e-57", "7342866310843703906e-57",
"6346578135170367089e-57", "2460297408743771669e-56", "3570663330579941789e-56", "4920594817487543338e-56", "5513803693793239499e-56", "9841189634975086676e-56", "2293742520468346151e-55", "3626181626671750295e-55",
"4587485040936692302e-55", "4292401179773452367e-55", "7991593483241208573e-55", "8584802359546904734e-55", "1450472650668700118e-54", "1953635791635816153e-54", "3077995618035344197e-54", "3907271583271632306e-54",
"6155991236070688394e-54", "6513133023445792607e-54", "2154901048022662567e-53", "1894619019403168166e-53", "2959962073570048223e-53", "2439398016331059421e-53", "5919924147140096446e-53", "4878796032662118842e-53",
"9757592065324237684e-53", "1392210452323614810e-52", "1785663220017589915e-52", "2306227277256578717e-52", "3571326440035179830e-52", "4612454554513157434e-52", "3964779207729154935e-52", "7959809946247713755e-52",
"7929558415458309870e-52", "1113768361858891848e-51", "1428530576014071932e-51", "1591961989249542751e-51", "1585911683091661974e-51", "3183923978499085502e-51", "3171823366183323948e-51", "6367847956998171004e-51",
"6343646732366647896e-51", "1398264415830130079e-50", "2796528831660260158e-50", "5593057663320520316e-50", "1525379362723778268e-49", "3050758725447556536e-49", "2819531698575837485e-49", "4298905327468461099e-49",
"5639063397151674970e-49", "8597810654936922198e-49", "8550606563389821763e-49", "1127812679430334994e-48", "2265066177170090075e-48", "2255625358860669988e-48", "4520691536030760063e-48", "4511250717721339976e-48",
"9041383072061520126e-48", "9013060617133259865e-48", "1812052941736072060e-47", "1802612123426651973e-47", "3624105883472144120e-47", "2889843888468295209e-47", "5083189055170421855e-47", "5779687776936590418e-47",
"1016637811034084371e-46", "2033275622068168742e-46", "2165022711773866385e-46", "4066551244136337484e-46", "4330045423547732770e-46", "8133102488272674968e-46", "8528343757389767897e-46", "1186063300652225647e-45",
"2372126601304451294e-45", "1732018169419093108e-45", "3332289249132488573e-45", "3464036338838186216e-45", "6664578498264977146e-45", "6928072677676372432e-45", "1204894013275923792e-44", "1845002445161281978e-44",
"3690004890322563956e-44", "7380009780645127912e-44", "5365463023210373257e-44", "1814873304963364946e-43", "2662051677049213355e-43", "3791622839830344567e-43", "5162227124194812035e-43", "5485979584002041385e-43",
"1032445424838962407e-42", "1097195916800408277e-42", "2032515603697201879e-42", "2162016587620093619e-42", "4032655961413680823e-42", "4291657929259464303e-42", "8065311922827361646e-42", "8583315858518928606e-42",
"8201287955946397973e-41", "8563890710930494845e-41", "1660977748616942273e-40", "1712778142186098969e-40", "3321955497233884546e-40", "3425556284372197938e-40", "4957033049066248471e-40", "5164234623342875255e-40",
"9914066098132496942e-40", "8641591301284229889e-40", "1032846924668575051e-39", "2994939986867411761e-39", "2065693849337150102e-39", "3545370220462043939e-39", "4131387698674300204e-39", "7090740440924087878e-39",
"7333529259818338749e-39", "2210102761987877077e-38", "2444509753272779583e-38", "3256552395160589989e-38", "3725366377730395001e-38", "6513104790321179978e-38", "6287079626645625837e-38", "4421881889497623827e-37",
"8843763778995247654e-37", "1163653128815164165e-36", "2327306257630328330e-36", "5257029957409550549e-36", "4052195073111762771e-36", "7392787344759469659e-36", "7501972704074631653e-36", "1182808015843205087e-35",
"1861845006104262664e-35", "4326107454357419217e-35", "3121272570059631439e-35", "7042255415401649525e-35", "5837420531103861747e-35", "1408451083080329905e-34", "2214484724011765921e-34", "2816902166160659810e-34",
"2819009954710342933e-34", "4829878479939566727e-34", "5638019909420685866e-34", "9659756959879133454e-34", "1126760866464263924e-33", "2253521732928527848e-33", "4507043465857055696e-33", "4348787641640324865e-33",
"7889433853799530591e-33", "8697575283280649730e-33", "1063036979067634967e-32", "1739515056656129946e-32", "3830565388268560717e-32", "3479030113312259892e-32", "6536477698622540633e-32", "6958060226624519784e-32",
"1616542660907820117e-31", "2530274573848620423e-31", "3935896069782660045e-31", "5060549147697240846e-31", "7168981391598300279e-31", "1574358427913064018e-30", "2558397395845124489e-30", "2333414819873091961e-30",
"4076510179765180375e-30", "4666829639746183922e-30", "7562700899549357203e-30", "8743339819511364297e-30", "1141422850334250505e-29", "1630604071906072150e-29", "3261208143812144300e-29", "3851527603793147847e-29",
"5932096827643285053e-29", "7112735747605292147e-29", "1304483257524857720e-28", "2608966515049715440e-28", "3199285975030718987e-28", "5217933030099430880e-28", "5808252490080434427e-28", "1043586606019886176e-27",
"2087173212039772352e-27", "3874975673667790943e-27", "7749951347335581886e-27", "1194114185310013454e-26", "1789486869796519386e-26", "2082119987534269967e-26", "3286340621855288191e-26", "3871606857330789353e-26",
"6572681243710576382e-26", "6253097595276813081e-26", "1189397842438211228e-25", "1197483001647015044e-25", "1484726013245563081e-25", "2394966003294030088e-25", "2671428802614173037e-25", "4789932006588060176e-25",
"5044834381351392949e-25", "9579864013176120352e-25", "9791645538825832773e-25", "1034839385738450801e-24", "1051323181400221074e-24", "1950469481926120352e-24", "1923832428474270273e-24", "3841334319076850079e-24",
"3847664856948540546e-24", "7682668638153700158e-24", "7635725069121690467e-24", "1004153227768256329e-23", "1010483765639946796e-23", "1531469297333387658e-23", "1532209444121690467e-23", "3062938594666775316e-23",
"3052497959288302809e-23", "6113956260378472507e-23", "6104995918576605618e-23", "1000617885438259691e-22", "1002098179014865309e-22", "1221607017214410007e-22", "1222183418576605618e-22", "2443214034428820014e-22",
"2441982651362195611e-22", "4884043883066624403e-22", "4883965302724391222e-22", "9765703580342233181e-22", "9767930605448782444e-22", "1000205229502171278e-21", "1000126649159938097e-21", "1953203580342233181e-21",
"1953523256815969944e-21", "3906407160684466362e-21", "3906569676473736763e-21", "7812814321368932724e-21", "7812662515789270401e-21", "1000084681436419487e-20", "1000056462362408638e-20", "1562528219074010849e-20",
"1562567148357629776e-20", "3125056438148021698e-20", "3125038929283618927e-20", "6250017508864402771e-20", "6250077858567237854e-20", "1000003032386302948e-19", "1000004597008228302e-19", "1250017508864402771e-19",
"1250001564621925354e-19", "2500015944242477417e-19", "2500003129243850708e-19", "5000012814998626709e-19", "5000006258487701416e-19", "1000001370906829834e-18", "1000002443790435791e-18", "2000002741813659668e-18",
"2000001072883605957e-18", "4000001668930053711e-18", "4000002145767211914e-18", "8000003337860107422e-18", "8000000476837158203e-18", "1000000143051147461e-17", "1000000619888305664e-17", "1600000286102294922e-17",
"1600000476837158203e-17", "3200000572204589844e-17", "3200000190734863281e-17", "6400000381469726563e-17", "6400000381469726562e-17", "1000000114440917969e-16", "1000000038146972656e-16", "1280000076293945313e-16",
"1280000076293945312e-16", "2560000152587890625e-16", "2560000152587890625e-16", "5120000305175781250e-16", "5120000305175781250e-16", "1000000030517578125e-15", "1000000030517578125e-15", "1024000061035156250e-15",
"1024000061035156250e-15", "2048000122070312500e-15", "2048000122070312500e-15", "4096000244140625000e-15", "4096000244140625000e-15", "8192000488281250000e-15", "8192000488281250000e-15", "1000000048828125000e-14",
"1000000048828125000e-14", "1638400097656250000e-14", "1638400097656250000e-14", "3276800195312500000e-14", "3276800195312500000e-14", "6553600390625000000e-14", "6553600390625000000e-14", "1000000039062500000e-13",
"1000000039062500000e-13", "1310720078125000000e-13", "1310720078125000000e-13", "2621440156250000000e-13", "2621440156250000000e-13", "5242880312500000000e-13", "5242880312500000000e-13", "1000000031250000000e-12",
"1000000031250000000e-12", "1048576062500000000e-12", "1048576062500000000e-12", "2097152125000000000e-12", "2097152125000000000e-12", "4194304250000000000e-12", "4194304250000000000e-12", "8388608500000000000e-12",
"8388608500000000000e-12", "1000000050000000000e-11", "1000000050000000000e-11", "1677721700000000000e-11", "1677721700000000000e-11", "3355443400000000000e-11", "3355443400000000000e-11", "6710886800000000000e-11",
"6710886800000000000e-11", "1000000040000000000e-10", "1000000040000000000e-10", "1342177360000000000e-10", "1342177360000000000e-10", "2684354720000000000e-10", "2684354720000000000e-10", "5368709440000000000e-10",
"5368709440000000000e-10", "1000000032000000000e-9", "1000000032000000000e-9", "1073741888000000000e-9", "1073741888000000000e-9", "2147483776000000000e-9", "2147483776000000000e-9", "4294967552000000000e-9",
"4294967552000000000e-9", "8589935104000000000e-9", "8589935104000000000e-9", "1000000051200000000e-8", "1000000051200000000e-8", "1717987020800000000e-8", "1717987020800000000e-8", "3435974041600000000e-8",
"3435974041600000000e-8", "6871948083200000000e-8", "6871948083200000000e-8", "1000000020480000000e-7", "1000000020480000000e-7", "1374389616640000000e-7", "1374389616640000000e-7", "2748779233280000000e-7",
"2748779233280000000e-7", "5497558466560000000e-7", "5497558466560000000e-7", "1000000028672000000e-6", "1000000028672000000e-6", "1099511693312000000e-6", "1099511693312000000e-6", "2199023386624000000e-6",
"2199023386624000000e-6", "4398046773248000000e-6", "4398046773248000000e-6", "8796093546496000000e-6", "8796093546496000000e-6", "1000000035225600000e-5", "1000000035225600000e-5", "1759218709299200000e-5",
"1759218709299200000e-5", "3518437418598400000e-5", "3518437418598400000e-5", "7036874837196800000e-5", "7036874837196800000e-5", "1000000045711360000e-4", "1000000045711360000e-4", "1407374967439360000e-4",
"1407374967439360000e-4", "2814749934878720000e-4", "2814749934878720000e-4", "5629499869757440000e-4", "5629499869757440000e-4", "1000000020545536000e-3", "1000000020545536000e-3", "1125899973951488000e-3",
"1125899973951488000e-3", "2251799947902976000e-3", "2251799947902976000e-3", "4503599895805952000e-3", "4503599895805952000e-3", "9007199791611904000e-3", "9007199791611904000e-3", "1000000080943513600e-2",
"1000000080943513600e-2", "1801439958322380800e-2", "1801439958322380800e-2", "3602879916644761600e-2", "3602879916644761600e-2", "7205759833289523200e-2", "7205759833289523200e-2", "1000000027256422400e-1",
"1000000027256422400e-1", "1441151966657904640e-1", "1441151966657904640e-1", "2882303933315809280e-1", "2882303933315809280e-1", "5764607866631618560e-1", "5764607866631618560e-1", "1000000018666487808e0",
"1000000018666487808e0", "1152921573326323712e0", "1152921573326323712e0", "2305843146652647424e0", "2305843146652647424e0", "4611686293305294848e0", "4611686293305294848e0", "9223372586610589696e0",
"9223372586610589696e0", "1000000053026226176e1", "1000000053026226176e1", "1844675396931420160e1", "1844675396931420160e1", "3689350793862840320e1", "3689350793862840320e1", "7378701587725680640e1",
"7378701587725680640e1", "1000000327904133120e2", "1000000327904133120e2", "1475740317545136128e2", "1475740317545136128e2", "2951480635090272256e2", "2951480635090272256e2", "5902961270180544512e2",
"5902961270180544512e2", "1000005825462272000e3", "1000005825462272000e3", "1180602809347735552e3", "1180602809347735552e3", "2361205618695471104e3", "2361205618695471104e3", "4722411237390942208e3",
"4722411237390942208e3", "9444822474781884416e3", "9444822474781884416e3", "1000045407880871936e4", "1000045407880871936e4", "1889048937449390080e4", "1889048937449390080e4", "3778097874898780160e4",
"3778097874898780160e4", "7556195749797560320e4", "7556195749797560320e4", "1000221329741316096e5", "1000221329741316096e5", "1511239149959512064e5", "1511239149959512064e5", "3022478299919024128e5",
"3022478299919024128e5", "6044956599838048256e5", "6044956599838048256e5", "1000362067229671424e6", "1000362067229671424e6", "1210342399855820800e6", "1210342399855820800e6", "2420684799711641600e6",
"2420684799711641600e6", "4841369599423283200e6", "4841369599423283200e6", "9682739198846566400e6", "9682739198846566400e6", "1004302716903620608e7", "1004302716903620608e7", "1936547839769313280e7",
"1936547839769313280e7", "3873095679538626560e7", "3873095679538626560e7", "7746191359077253120e7", "7746191359077253120e7", "1026820715040473088e8", "1026820715040473088e8", "1549238271815450624e8",
"1549238271815450624e8", "3098476543630901248e8", "3098476543630901248e8", "6196953087261802496e8", "6196953087261802496e8", "1080863910568919040e9", "1080863910568919040e9", "1297036692682702848e9",
"1297036692682702848e9", "2594073385365405696e9", "2594073385365405696e9", "5064243089840708717e9", "5188146770730811392e9", "1704601520732249929e10", "1729382256910270464e10", "2281062273035673417e10",
"2330623745391714487e10", "4562124546071346834e10", "4661247490783428974e10", "9124249092142693668e10", "8095231268425949367e10", "1138053062900034655e11", "1157877651842451083e11", "2276106125800069310e11",
"2315755303684902166e11", "3404246894228895751e11", "3483545249998561463e11", "6808493788457791502e11", "6967090499997122926e11", "1820884900640055448e12", "2098056985576103449e12", "2968850258011298317e12",
"4196113971152206898e12", "5264780972753784055e12", "7719308399035601217e12", "1052956194550756811e13", "1813029497114645275e13", "2105912389101513622e13", "2953139450960477971e13", "4211824778203027244e13",
"5906278901920955942e13", "8423649556406054488e13", "9445184136855170607e13", "1450423597691716220e14", "2158204644678559153e14", "6265444911727495335e14", "3573766738652245019e14", "7147533477304490038e14",
"1253088982345499067e15", "1160338878153372976e15", "2506177964690998134e15", "1578035205601872665e15", "2598928068883124225e15", "3156070411203745330e15", "5197856137766248450e15", "6312140822407490660e15",
"1039571227553249690e16", "1262428164481498132e16", "2079142455106499380e16", "2524856328962996264e16", "4158284910212998760e16", "4938284189461868307e16", "8316569820425997520e16", "9876568378923736614e16",
"1054513918970848194e17", "1663313964085199504e17", "1997599369477572167e17", "3326627928170399008e17", "3995198738955144334e17", "6653255856340798016e17", "7990397477910288668e17", "1419793946039458980e18",
"1642650882967707422e18", "2839587892078917960e18", "3285301765935414844e18", "5679175784157835920e18", "5930808865080240255e18", "1135835156831567184e19", "1186161773016048051e19", "2271670313663134368e19",
"2372323546032096102e19", "4543340627326268736e19", "4744647092064192204e19", "9086681254652537472e19", "9489294184128384408e19", "1204847285129074214e20", "1393198157908569141e20", "2409694570258148428e20",
"2045948416657587115e20", "4078941241356745689e20", "4091896833315174230e20", "3402823567797336616e20", "7006492321624085355e-64",
};
