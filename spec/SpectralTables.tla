---------------------------- MODULE SpectralTables ----------------------------
(* Published tables: extraterrestrial spectrum and absorption coefficients of SPECTRL2
   (Bird & Riordan 1984, spectrl2_2.c) and the ASTM G173-03 reference spectra. *)
EXTENDS TLC
S2Wl == <<
    "300.0", "305.0", "310.0", "315.0", "320.0", "325.0", "330.0", "335.0", "340.0", "345.0", "350.0", "360.0", 
    "370.0", "380.0", "390.0", "400.0", "410.0", "420.0", "430.0", "440.0", "450.0", "460.0", "470.0", "480.0", 
    "490.0", "500.0", "510.0", "520.0", "530.0", "540.0", "550.0", "570.0", "593.0", "610.0", "630.0", "656.0", 
    "667.6", "690.0", "710.0", "718.0", "724.4", "740.0", "752.5", "757.5", "762.5", "767.5", "780.0", "800.0", 
    "816.0", "823.7", "831.5", "840.0", "860.0", "880.0", "905.0", "915.0", "925.0", "930.0", "937.0", "948.0", 
    "965.0", "980.0", "993.5", "1040.0", "1070.0", "1100.0", "1120.0", "1130.0", "1145.0", "1161.0", "1170.0", 
    "1200.0", "1240.0", "1270.0", "1290.0", "1320.0", "1350.0", "1395.0", "1442.5", "1462.5", "1477.0", "1497.0", 
    "1520.0", "1539.0", "1558.0", "1578.0", "1592.0", "1610.0", "1630.0", "1646.0", "1678.0", "1740.0", "1800.0", 
    "1860.0", "1920.0", "1960.0", "1985.0", "2005.0", "2035.0", "2065.0", "2100.0", "2148.0", "2198.0", "2270.0", 
    "2360.0", "2450.0", "2500.0", "2600.0", "2700.0", "2800.0", "2900.0", "3000.0", "3100.0", "3200.0", "3300.0", 
    "3400.0", "3500.0", "3600.0", "3700.0", "3800.0", "3900.0", "4000.0">>
S2Et == <<
    "0.5359", "0.5583", "0.622", "0.6927", "0.7151", "0.8329", "0.9619", "0.9319", "0.9006", "0.9113", "0.9755", 
    "0.9759", "1.1199", "1.1038", "1.0338", "1.4791", "1.7013", "1.7404", "1.5872", "1.837", "2.005", "2.043", 
    "1.987", "2.027", "1.896", "1.909", "1.927", "1.831", "1.891", "1.898", "1.892", "1.84", "1.768", "1.728", 
    "1.658", "1.524", "1.531", "1.42", "1.399", "1.374", "1.373", "1.298", "1.269", "1.245", "1.223", "1.205", 
    "1.183", "1.148", "1.091", "1.062", "1.038", "1.022", "0.9987", "0.9472", "0.8932", "0.8682", "0.8297", 
    "0.8303", "0.814", "0.7869", "0.7683", "0.767", "0.7576", "0.6881", "0.6407", "0.6062", "0.5859", "0.5702", 
    "0.5641", "0.5442", "0.5334", "0.5016", "0.4775", "0.4427", "0.44", "0.4168", "0.3914", "0.3589", "0.3275", 
    "0.3175", "0.3073", "0.3004", "0.2928", "0.2755", "0.2721", "0.2593", "0.2469", "0.244", "0.2435", "0.2348", 
    "0.2205", "0.1908", "0.1711", "0.1445", "0.1357", "0.123", "0.1238", "0.113", "0.1085", "0.0975", "0.0924", 
    "0.0824", "0.0746", "0.0683", "0.0638", "0.0495", "0.0485", "0.0386", "0.0366", "0.032", "0.0281", "0.0248", 
    "0.0221", "0.0196", "0.0175", "0.0157", "0.0141", "0.0127", "0.0115", "0.0104", "0.0095", "0.0086">>
S2Water == <<
    "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
    "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
    "0.0", "0.0", "0.075", "0.0", "0.0", "0.0", "0.0", "0.016", "0.0125", "1.8", "2.5", "0.061", "0.0008", 
    "0.0001", "1e-05", "1e-05", "0.0006", "0.036", "1.6", "2.5", "0.5", "0.155", "1e-05", "0.0026", "7.0", "5.0", 
    "5.0", "27.0", "55.0", "45.0", "4.0", "1.48", "0.1", "1e-05", "0.001", "3.2", "115.0", "70.0", "75.0", 
    "10.0", "5.0", "2.0", "0.002", "0.002", "0.1", "4.0", "200.0", "1000.0", "185.0", "80.0", "80.0", "12.0", 
    "0.16", "0.002", "0.0005", "0.0001", "1e-05", "0.0001", "0.001", "0.01", "0.036", "1.1", "130.0", "1000.0", 
    "500.0", "100.0", "4.0", "2.9", "1.0", "0.4", "0.22", "0.25", "0.33", "0.5", "4.0", "80.0", "310.0", 
    "15000.0", "22000.0", "8000.0", "650.0", "240.0", "230.0", "100.0", "120.0", "19.5", "3.6", "3.1", "2.5", 
    "1.4", "0.17", "0.0045">>
S2Ozone == <<
    "10.0", "4.8", "2.7", "1.35", "0.8", "0.38", "0.16", "0.075", "0.04", "0.019", "0.007", "0.0", "0.0", "0.0", 
    "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.003", "0.006", "0.009", "0.014", "0.021", "0.03", "0.04", 
    "0.048", "0.063", "0.075", "0.085", "0.12", "0.119", "0.12", "0.09", "0.065", "0.051", "0.028", "0.018", 
    "0.015", "0.012", "0.01", "0.008", "0.007", "0.006", "0.005", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
    "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
    "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
    "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
    "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
    "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0">>
S2Mixed == <<
    "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
    "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
    "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.15", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "4.0", 
    "0.35", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
    "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.05", "0.3", "0.02", 
    "0.0002", "0.00011", "1e-05", "0.05", "0.011", "0.005", "0.0006", "0.0", "0.005", "0.13", "0.04", "0.06", 
    "0.13", "0.001", "0.0014", "0.0001", "1e-05", "1e-05", "0.0001", "0.001", "4.3", "0.2", "21.0", "0.13", 
    "1.0", "0.08", "0.001", "0.00038", "0.001", "0.0005", "0.00015", "0.00014", "0.00066", "100.0", "150.0", 
    "0.13", "0.0095", "0.001", "0.8", "1.9", "1.3", "0.075", "0.01", "0.00195", "0.004", "0.29", "0.025">>
RefWl == <<
    "280.0", "280.5", "281.0", "281.5", "282.0", "282.5", "283.0", "283.5", "284.0", "284.5", "285.0", "285.5", 
    "286.0", "286.5", "287.0", "287.5", "288.0", "288.5", "289.0", "289.5", "290.0", "290.5", "291.0", "291.5", 
    "292.0", "292.5", "293.0", "293.5", "294.0", "294.5", "295.0", "295.5", "296.0", "296.5", "297.0", "297.5", 
    "298.0", "298.5", "299.0", "299.5", "300.0", "300.5", "301.0", "301.5", "302.0", "302.5", "303.0", "303.5", 
    "304.0", "304.5", "305.0", "305.5", "306.0", "306.5", "307.0", "307.5", "308.0", "308.5", "309.0", "309.5", 
    "310.0", "310.5", "311.0", "311.5", "312.0", "312.5", "313.0", "313.5", "314.0", "314.5", "315.0", "315.5", 
    "316.0", "316.5", "317.0", "317.5", "318.0", "318.5", "319.0", "319.5", "320.0", "320.5", "321.0", "321.5", 
    "322.0", "322.5", "323.0", "323.5", "324.0", "324.5", "325.0", "325.5", "326.0", "326.5", "327.0", "327.5", 
    "328.0", "328.5", "329.0", "329.5", "330.0", "330.5", "331.0", "331.5", "332.0", "332.5", "333.0", "333.5", 
    "334.0", "334.5", "335.0", "335.5", "336.0", "336.5", "337.0", "337.5", "338.0", "338.5", "339.0", "339.5", 
    "340.0", "340.5", "341.0", "341.5", "342.0", "342.5", "343.0", "343.5", "344.0", "344.5", "345.0", "345.5", 
    "346.0", "346.5", "347.0", "347.5", "348.0", "348.5", "349.0", "349.5", "350.0", "350.5", "351.0", "351.5", 
    "352.0", "352.5", "353.0", "353.5", "354.0", "354.5", "355.0", "355.5", "356.0", "356.5", "357.0", "357.5", 
    "358.0", "358.5", "359.0", "359.5", "360.0", "360.5", "361.0", "361.5", "362.0", "362.5", "363.0", "363.5", 
    "364.0", "364.5", "365.0", "365.5", "366.0", "366.5", "367.0", "367.5", "368.0", "368.5", "369.0", "369.5", 
    "370.0", "370.5", "371.0", "371.5", "372.0", "372.5", "373.0", "373.5", "374.0", "374.5", "375.0", "375.5", 
    "376.0", "376.5", "377.0", "377.5", "378.0", "378.5", "379.0", "379.5", "380.0", "380.5", "381.0", "381.5", 
    "382.0", "382.5", "383.0", "383.5", "384.0", "384.5", "385.0", "385.5", "386.0", "386.5", "387.0", "387.5", 
    "388.0", "388.5", "389.0", "389.5", "390.0", "390.5", "391.0", "391.5", "392.0", "392.5", "393.0", "393.5", 
    "394.0", "394.5", "395.0", "395.5", "396.0", "396.5", "397.0", "397.5", "398.0", "398.5", "399.0", "399.5", 
    "400.0", "401.0", "402.0", "403.0", "404.0", "405.0", "406.0", "407.0", "408.0", "409.0", "410.0", "411.0", 
    "412.0", "413.0", "414.0", "415.0", "416.0", "417.0", "418.0", "419.0", "420.0", "421.0", "422.0", "423.0", 
    "424.0", "425.0", "426.0", "427.0", "428.0", "429.0", "430.0", "431.0", "432.0", "433.0", "434.0", "435.0", 
    "436.0", "437.0", "438.0", "439.0", "440.0", "441.0", "442.0", "443.0", "444.0", "445.0", "446.0", "447.0", 
    "448.0", "449.0", "450.0", "451.0", "452.0", "453.0", "454.0", "455.0", "456.0", "457.0", "458.0", "459.0", 
    "460.0", "461.0", "462.0", "463.0", "464.0", "465.0", "466.0", "467.0", "468.0", "469.0", "470.0", "471.0", 
    "472.0", "473.0", "474.0", "475.0", "476.0", "477.0", "478.0", "479.0", "480.0", "481.0", "482.0", "483.0", 
    "484.0", "485.0", "486.0", "487.0", "488.0", "489.0", "490.0", "491.0", "492.0", "493.0", "494.0", "495.0", 
    "496.0", "497.0", "498.0", "499.0", "500.0", "501.0", "502.0", "503.0", "504.0", "505.0", "506.0", "507.0", 
    "508.0", "509.0", "510.0", "511.0", "512.0", "513.0", "514.0", "515.0", "516.0", "517.0", "518.0", "519.0", 
    "520.0", "521.0", "522.0", "523.0", "524.0", "525.0", "526.0", "527.0", "528.0", "529.0", "530.0", "531.0", 
    "532.0", "533.0", "534.0", "535.0", "536.0", "537.0", "538.0", "539.0", "540.0", "541.0", "542.0", "543.0", 
    "544.0", "545.0", "546.0", "547.0", "548.0", "549.0", "550.0", "551.0", "552.0", "553.0", "554.0", "555.0", 
    "556.0", "557.0", "558.0", "559.0", "560.0", "561.0", "562.0", "563.0", "564.0", "565.0", "566.0", "567.0", 
    "568.0", "569.0", "570.0", "571.0", "572.0", "573.0", "574.0", "575.0", "576.0", "577.0", "578.0", "579.0", 
    "580.0", "581.0", "582.0", "583.0", "584.0", "585.0", "586.0", "587.0", "588.0", "589.0", "590.0", "591.0", 
    "592.0", "593.0", "594.0", "595.0", "596.0", "597.0", "598.0", "599.0", "600.0", "601.0", "602.0", "603.0", 
    "604.0", "605.0", "606.0", "607.0", "608.0", "609.0", "610.0", "611.0", "612.0", "613.0", "614.0", "615.0", 
    "616.0", "617.0", "618.0", "619.0", "620.0", "621.0", "622.0", "623.0", "624.0", "625.0", "626.0", "627.0", 
    "628.0", "629.0", "630.0", "631.0", "632.0", "633.0", "634.0", "635.0", "636.0", "637.0", "638.0", "639.0", 
    "640.0", "641.0", "642.0", "643.0", "644.0", "645.0", "646.0", "647.0", "648.0", "649.0", "650.0", "651.0", 
    "652.0", "653.0", "654.0", "655.0", "656.0", "657.0", "658.0", "659.0", "660.0", "661.0", "662.0", "663.0", 
    "664.0", "665.0", "666.0", "667.0", "668.0", "669.0", "670.0", "671.0", "672.0", "673.0", "674.0", "675.0", 
    "676.0", "677.0", "678.0", "679.0", "680.0", "681.0", "682.0", "683.0", "684.0", "685.0", "686.0", "687.0", 
    "688.0", "689.0", "690.0", "691.0", "692.0", "693.0", "694.0", "695.0", "696.0", "697.0", "698.0", "699.0", 
    "700.0", "701.0", "702.0", "703.0", "704.0", "705.0", "706.0", "707.0", "708.0", "709.0", "710.0", "711.0", 
    "712.0", "713.0", "714.0", "715.0", "716.0", "717.0", "718.0", "719.0", "720.0", "721.0", "722.0", "723.0", 
    "724.0", "725.0", "726.0", "727.0", "728.0", "729.0", "730.0", "731.0", "732.0", "733.0", "734.0", "735.0", 
    "736.0", "737.0", "738.0", "739.0", "740.0", "741.0", "742.0", "743.0", "744.0", "745.0", "746.0", "747.0", 
    "748.0", "749.0", "750.0", "751.0", "752.0", "753.0", "754.0", "755.0", "756.0", "757.0", "758.0", "759.0", 
    "760.0", "761.0", "762.0", "763.0", "764.0", "765.0", "766.0", "767.0", "768.0", "769.0", "770.0", "771.0", 
    "772.0", "773.0", "774.0", "775.0", "776.0", "777.0", "778.0", "779.0", "780.0", "781.0", "782.0", "783.0", 
    "784.0", "785.0", "786.0", "787.0", "788.0", "789.0", "790.0", "791.0", "792.0", "793.0", "794.0", "795.0", 
    "796.0", "797.0", "798.0", "799.0", "800.0", "801.0", "802.0", "803.0", "804.0", "805.0", "806.0", "807.0", 
    "808.0", "809.0", "810.0", "811.0", "812.0", "813.0", "814.0", "815.0", "816.0", "817.0", "818.0", "819.0", 
    "820.0", "821.0", "822.0", "823.0", "824.0", "825.0", "826.0", "827.0", "828.0", "829.0", "830.0", "831.0", 
    "832.0", "833.0", "834.0", "835.0", "836.0", "837.0", "838.0", "839.0", "840.0", "841.0", "842.0", "843.0", 
    "844.0", "845.0", "846.0", "847.0", "848.0", "849.0", "850.0", "851.0", "852.0", "853.0", "854.0", "855.0", 
    "856.0", "857.0", "858.0", "859.0", "860.0", "861.0", "862.0", "863.0", "864.0", "865.0", "866.0", "867.0", 
    "868.0", "869.0", "870.0", "871.0", "872.0", "873.0", "874.0", "875.0", "876.0", "877.0", "878.0", "879.0", 
    "880.0", "881.0", "882.0", "883.0", "884.0", "885.0", "886.0", "887.0", "888.0", "889.0", "890.0", "891.0", 
    "892.0", "893.0", "894.0", "895.0", "896.0", "897.0", "898.0", "899.0", "900.0", "901.0", "902.0", "903.0", 
    "904.0", "905.0", "906.0", "907.0", "908.0", "909.0", "910.0", "911.0", "912.0", "913.0", "914.0", "915.0", 
    "916.0", "917.0", "918.0", "919.0", "920.0", "921.0", "922.0", "923.0", "924.0", "925.0", "926.0", "927.0", 
    "928.0", "929.0", "930.0", "931.0", "932.0", "933.0", "934.0", "935.0", "936.0", "937.0", "938.0", "939.0", 
    "940.0", "941.0", "942.0", "943.0", "944.0", "945.0", "946.0", "947.0", "948.0", "949.0", "950.0", "951.0", 
    "952.0", "953.0", "954.0", "955.0", "956.0", "957.0", "958.0", "959.0", "960.0", "961.0", "962.0", "963.0", 
    "964.0", "965.0", "966.0", "967.0", "968.0", "969.0", "970.0", "971.0", "972.0", "973.0", "974.0", "975.0", 
    "976.0", "977.0", "978.0", "979.0", "980.0", "981.0", "982.0", "983.0", "984.0", "985.0", "986.0", "987.0", 
    "988.0", "989.0", "990.0", "991.0", "992.0", "993.0", "994.0", "995.0", "996.0", "997.0", "998.0", "999.0", 
    "1000.0", "1001.0", "1002.0", "1003.0", "1004.0", "1005.0", "1006.0", "1007.0", "1008.0", "1009.0", "1010.0", 
    "1011.0", "1012.0", "1013.0", "1014.0", "1015.0", "1016.0", "1017.0", "1018.0", "1019.0", "1020.0", "1021.0", 
    "1022.0", "1023.0", "1024.0", "1025.0", "1026.0", "1027.0", "1028.0", "1029.0", "1030.0", "1031.0", "1032.0", 
    "1033.0", "1034.0", "1035.0", "1036.0", "1037.0", "1038.0", "1039.0", "1040.0", "1041.0", "1042.0", "1043.0", 
    "1044.0", "1045.0", "1046.0", "1047.0", "1048.0", "1049.0", "1050.0", "1051.0", "1052.0", "1053.0", "1054.0", 
    "1055.0", "1056.0", "1057.0", "1058.0", "1059.0", "1060.0", "1061.0", "1062.0", "1063.0", "1064.0", "1065.0", 
    "1066.0", "1067.0", "1068.0", "1069.0", "1070.0", "1071.0", "1072.0", "1073.0", "1074.0", "1075.0", "1076.0", 
    "1077.0", "1078.0", "1079.0", "1080.0", "1081.0", "1082.0", "1083.0", "1084.0", "1085.0", "1086.0", "1087.0", 
    "1088.0", "1089.0", "1090.0", "1091.0", "1092.0", "1093.0", "1094.0", "1095.0", "1096.0", "1097.0", "1098.0", 
    "1099.0", "1100.0", "1101.0", "1102.0", "1103.0", "1104.0", "1105.0", "1106.0", "1107.0", "1108.0", "1109.0", 
    "1110.0", "1111.0", "1112.0", "1113.0", "1114.0", "1115.0", "1116.0", "1117.0", "1118.0", "1119.0", "1120.0", 
    "1121.0", "1122.0", "1123.0", "1124.0", "1125.0", "1126.0", "1127.0", "1128.0", "1129.0", "1130.0", "1131.0", 
    "1132.0", "1133.0", "1134.0", "1135.0", "1136.0", "1137.0", "1138.0", "1139.0", "1140.0", "1141.0", "1142.0", 
    "1143.0", "1144.0", "1145.0", "1146.0", "1147.0", "1148.0", "1149.0", "1150.0", "1151.0", "1152.0", "1153.0", 
    "1154.0", "1155.0", "1156.0", "1157.0", "1158.0", "1159.0", "1160.0", "1161.0", "1162.0", "1163.0", "1164.0", 
    "1165.0", "1166.0", "1167.0", "1168.0", "1169.0", "1170.0", "1171.0", "1172.0", "1173.0", "1174.0", "1175.0", 
    "1176.0", "1177.0", "1178.0", "1179.0", "1180.0", "1181.0", "1182.0", "1183.0", "1184.0", "1185.0", "1186.0", 
    "1187.0", "1188.0", "1189.0", "1190.0", "1191.0", "1192.0", "1193.0", "1194.0", "1195.0", "1196.0", "1197.0", 
    "1198.0", "1199.0", "1200.0", "1201.0", "1202.0", "1203.0", "1204.0", "1205.0", "1206.0", "1207.0", "1208.0", 
    "1209.0", "1210.0", "1211.0", "1212.0", "1213.0", "1214.0", "1215.0", "1216.0", "1217.0", "1218.0", "1219.0", 
    "1220.0", "1221.0", "1222.0", "1223.0", "1224.0", "1225.0", "1226.0", "1227.0", "1228.0", "1229.0", "1230.0", 
    "1231.0", "1232.0", "1233.0", "1234.0", "1235.0", "1236.0", "1237.0", "1238.0", "1239.0", "1240.0", "1241.0", 
    "1242.0", "1243.0", "1244.0", "1245.0", "1246.0", "1247.0", "1248.0", "1249.0", "1250.0", "1251.0", "1252.0", 
    "1253.0", "1254.0", "1255.0", "1256.0", "1257.0", "1258.0", "1259.0", "1260.0", "1261.0", "1262.0", "1263.0", 
    "1264.0", "1265.0", "1266.0", "1267.0", "1268.0", "1269.0", "1270.0", "1271.0", "1272.0", "1273.0", "1274.0", 
    "1275.0", "1276.0", "1277.0", "1278.0", "1279.0", "1280.0", "1281.0", "1282.0", "1283.0", "1284.0", "1285.0", 
    "1286.0", "1287.0", "1288.0", "1289.0", "1290.0", "1291.0", "1292.0", "1293.0", "1294.0", "1295.0", "1296.0", 
    "1297.0", "1298.0", "1299.0", "1300.0", "1301.0", "1302.0", "1303.0", "1304.0", "1305.0", "1306.0", "1307.0", 
    "1308.0", "1309.0", "1310.0", "1311.0", "1312.0", "1313.0", "1314.0", "1315.0", "1316.0", "1317.0", "1318.0", 
    "1319.0", "1320.0", "1321.0", "1322.0", "1323.0", "1324.0", "1325.0", "1326.0", "1327.0", "1328.0", "1329.0", 
    "1330.0", "1331.0", "1332.0", "1333.0", "1334.0", "1335.0", "1336.0", "1337.0", "1338.0", "1339.0", "1340.0", 
    "1341.0", "1342.0", "1343.0", "1344.0", "1345.0", "1346.0", "1347.0", "1348.0", "1349.0", "1350.0", "1351.0", 
    "1352.0", "1353.0", "1354.0", "1355.0", "1356.0", "1357.0", "1358.0", "1359.0", "1360.0", "1361.0", "1362.0", 
    "1363.0", "1364.0", "1365.0", "1366.0", "1367.0", "1368.0", "1369.0", "1370.0", "1371.0", "1372.0", "1373.0", 
    "1374.0", "1375.0", "1376.0", "1377.0", "1378.0", "1379.0", "1380.0", "1381.0", "1382.0", "1383.0", "1384.0", 
    "1385.0", "1386.0", "1387.0", "1388.0", "1389.0", "1390.0", "1391.0", "1392.0", "1393.0", "1394.0", "1395.0", 
    "1396.0", "1397.0", "1398.0", "1399.0", "1400.0", "1401.0", "1402.0", "1403.0", "1404.0", "1405.0", "1406.0", 
    "1407.0", "1408.0", "1409.0", "1410.0", "1411.0", "1412.0", "1413.0", "1414.0", "1415.0", "1416.0", "1417.0", 
    "1418.0", "1419.0", "1420.0", "1421.0", "1422.0", "1423.0", "1424.0", "1425.0", "1426.0", "1427.0", "1428.0", 
    "1429.0", "1430.0", "1431.0", "1432.0", "1433.0", "1434.0", "1435.0", "1436.0", "1437.0", "1438.0", "1439.0", 
    "1440.0", "1441.0", "1442.0", "1443.0", "1444.0", "1445.0", "1446.0", "1447.0", "1448.0", "1449.0", "1450.0", 
    "1451.0", "1452.0", "1453.0", "1454.0", "1455.0", "1456.0", "1457.0", "1458.0", "1459.0", "1460.0", "1461.0", 
    "1462.0", "1463.0", "1464.0", "1465.0", "1466.0", "1467.0", "1468.0", "1469.0", "1470.0", "1471.0", "1472.0", 
    "1473.0", "1474.0", "1475.0", "1476.0", "1477.0", "1478.0", "1479.0", "1480.0", "1481.0", "1482.0", "1483.0", 
    "1484.0", "1485.0", "1486.0", "1487.0", "1488.0", "1489.0", "1490.0", "1491.0", "1492.0", "1493.0", "1494.0", 
    "1495.0", "1496.0", "1497.0", "1498.0", "1499.0", "1500.0", "1501.0", "1502.0", "1503.0", "1504.0", "1505.0", 
    "1506.0", "1507.0", "1508.0", "1509.0", "1510.0", "1511.0", "1512.0", "1513.0", "1514.0", "1515.0", "1516.0", 
    "1517.0", "1518.0", "1519.0", "1520.0", "1521.0", "1522.0", "1523.0", "1524.0", "1525.0", "1526.0", "1527.0", 
    "1528.0", "1529.0", "1530.0", "1531.0", "1532.0", "1533.0", "1534.0", "1535.0", "1536.0", "1537.0", "1538.0", 
    "1539.0", "1540.0", "1541.0", "1542.0", "1543.0", "1544.0", "1545.0", "1546.0", "1547.0", "1548.0", "1549.0", 
    "1550.0", "1551.0", "1552.0", "1553.0", "1554.0", "1555.0", "1556.0", "1557.0", "1558.0", "1559.0", "1560.0", 
    "1561.0", "1562.0", "1563.0", "1564.0", "1565.0", "1566.0", "1567.0", "1568.0", "1569.0", "1570.0", "1571.0", 
    "1572.0", "1573.0", "1574.0", "1575.0", "1576.0", "1577.0", "1578.0", "1579.0", "1580.0", "1581.0", "1582.0", 
    "1583.0", "1584.0", "1585.0", "1586.0", "1587.0", "1588.0", "1589.0", "1590.0", "1591.0", "1592.0", "1593.0", 
    "1594.0", "1595.0", "1596.0", "1597.0", "1598.0", "1599.0", "1600.0", "1601.0", "1602.0", "1603.0", "1604.0", 
    "1605.0", "1606.0", "1607.0", "1608.0", "1609.0", "1610.0", "1611.0", "1612.0", "1613.0", "1614.0", "1615.0", 
    "1616.0", "1617.0", "1618.0", "1619.0", "1620.0", "1621.0", "1622.0", "1623.0", "1624.0", "1625.0", "1626.0", 
    "1627.0", "1628.0", "1629.0", "1630.0", "1631.0", "1632.0", "1633.0", "1634.0", "1635.0", "1636.0", "1637.0", 
    "1638.0", "1639.0", "1640.0", "1641.0", "1642.0", "1643.0", "1644.0", "1645.0", "1646.0", "1647.0", "1648.0", 
    "1649.0", "1650.0", "1651.0", "1652.0", "1653.0", "1654.0", "1655.0", "1656.0", "1657.0", "1658.0", "1659.0", 
    "1660.0", "1661.0", "1662.0", "1663.0", "1664.0", "1665.0", "1666.0", "1667.0", "1668.0", "1669.0", "1670.0", 
    "1671.0", "1672.0", "1673.0", "1674.0", "1675.0", "1676.0", "1677.0", "1678.0", "1679.0", "1680.0", "1681.0", 
    "1682.0", "1683.0", "1684.0", "1685.0", "1686.0", "1687.0", "1688.0", "1689.0", "1690.0", "1691.0", "1692.0", 
    "1693.0", "1694.0", "1695.0", "1696.0", "1697.0", "1698.0", "1699.0", "1700.0", "1702.0", "1705.0", "1710.0", 
    "1715.0", "1720.0", "1725.0", "1730.0", "1735.0", "1740.0", "1745.0", "1750.0", "1755.0", "1760.0", "1765.0", 
    "1770.0", "1775.0", "1780.0", "1785.0", "1790.0", "1795.0", "1800.0", "1805.0", "1810.0", "1815.0", "1820.0", 
    "1825.0", "1830.0", "1835.0", "1840.0", "1845.0", "1850.0", "1855.0", "1860.0", "1865.0", "1870.0", "1875.0", 
    "1880.0", "1885.0", "1890.0", "1895.0", "1900.0", "1905.0", "1910.0", "1915.0", "1920.0", "1925.0", "1930.0", 
    "1935.0", "1940.0", "1945.0", "1950.0", "1955.0", "1960.0", "1965.0", "1970.0", "1975.0", "1980.0", "1985.0", 
    "1990.0", "1995.0", "2000.0", "2005.0", "2010.0", "2015.0", "2020.0", "2025.0", "2030.0", "2035.0", "2040.0", 
    "2045.0", "2050.0", "2055.0", "2060.0", "2065.0", "2070.0", "2075.0", "2080.0", "2085.0", "2090.0", "2095.0", 
    "2100.0", "2105.0", "2110.0", "2115.0", "2120.0", "2125.0", "2130.0", "2135.0", "2140.0", "2145.0", "2150.0", 
    "2155.0", "2160.0", "2165.0", "2170.0", "2175.0", "2180.0", "2185.0", "2190.0", "2195.0", "2200.0", "2205.0", 
    "2210.0", "2215.0", "2220.0", "2225.0", "2230.0", "2235.0", "2240.0", "2245.0", "2250.0", "2255.0", "2260.0", 
    "2265.0", "2270.0", "2275.0", "2280.0", "2285.0", "2290.0", "2295.0", "2300.0", "2305.0", "2310.0", "2315.0", 
    "2320.0", "2325.0", "2330.0", "2335.0", "2340.0", "2345.0", "2350.0", "2355.0", "2360.0", "2365.0", "2370.0", 
    "2375.0", "2380.0", "2385.0", "2390.0", "2395.0", "2400.0", "2405.0", "2410.0", "2415.0", "2420.0", "2425.0", 
    "2430.0", "2435.0", "2440.0", "2445.0", "2450.0", "2455.0", "2460.0", "2465.0", "2470.0", "2475.0", "2480.0", 
    "2485.0", "2490.0", "2495.0", "2500.0", "2505.0", "2510.0", "2515.0", "2520.0", "2525.0", "2530.0", "2535.0", 
    "2540.0", "2545.0", "2550.0", "2555.0", "2560.0", "2565.0", "2570.0", "2575.0", "2580.0", "2585.0", "2590.0", 
    "2595.0", "2600.0", "2605.0", "2610.0", "2615.0", "2620.0", "2625.0", "2630.0", "2635.0", "2640.0", "2645.0", 
    "2650.0", "2655.0", "2660.0", "2665.0", "2670.0", "2675.0", "2680.0", "2685.0", "2690.0", "2695.0", "2700.0", 
    "2705.0", "2710.0", "2715.0", "2720.0", "2725.0", "2730.0", "2735.0", "2740.0", "2745.0", "2750.0", "2755.0", 
    "2760.0", "2765.0", "2770.0", "2775.0", "2780.0", "2785.0", "2790.0", "2795.0", "2800.0", "2805.0", "2810.0", 
    "2815.0", "2820.0", "2825.0", "2830.0", "2835.0", "2840.0", "2845.0", "2850.0", "2855.0", "2860.0", "2865.0", 
    "2870.0", "2875.0", "2880.0", "2885.0", "2890.0", "2895.0", "2900.0", "2905.0", "2910.0", "2915.0", "2920.0", 
    "2925.0", "2930.0", "2935.0", "2940.0", "2945.0", "2950.0", "2955.0", "2960.0", "2965.0", "2970.0", "2975.0", 
    "2980.0", "2985.0", "2990.0", "2995.0", "3000.0", "3005.0", "3010.0", "3015.0", "3020.0", "3025.0", "3030.0", 
    "3035.0", "3040.0", "3045.0", "3050.0", "3055.0", "3060.0", "3065.0", "3070.0", "3075.0", "3080.0", "3085.0", 
    "3090.0", "3095.0", "3100.0", "3105.0", "3110.0", "3115.0", "3120.0", "3125.0", "3130.0", "3135.0", "3140.0", 
    "3145.0", "3150.0", "3155.0", "3160.0", "3165.0", "3170.0", "3175.0", "3180.0", "3185.0", "3190.0", "3195.0", 
    "3200.0", "3205.0", "3210.0", "3215.0", "3220.0", "3225.0", "3230.0", "3235.0", "3240.0", "3245.0", "3250.0", 
    "3255.0", "3260.0", "3265.0", "3270.0", "3275.0", "3280.0", "3285.0", "3290.0", "3295.0", "3300.0", "3305.0", 
    "3310.0", "3315.0", "3320.0", "3325.0", "3330.0", "3335.0", "3340.0", "3345.0", "3350.0", "3355.0", "3360.0", 
    "3365.0", "3370.0", "3375.0", "3380.0", "3385.0", "3390.0", "3395.0", "3400.0", "3405.0", "3410.0", "3415.0", 
    "3420.0", "3425.0", "3430.0", "3435.0", "3440.0", "3445.0", "3450.0", "3455.0", "3460.0", "3465.0", "3470.0", 
    "3475.0", "3480.0", "3485.0", "3490.0", "3495.0", "3500.0", "3505.0", "3510.0", "3515.0", "3520.0", "3525.0", 
    "3530.0", "3535.0", "3540.0", "3545.0", "3550.0", "3555.0", "3560.0", "3565.0", "3570.0", "3575.0", "3580.0", 
    "3585.0", "3590.0", "3595.0", "3600.0", "3605.0", "3610.0", "3615.0", "3620.0", "3625.0", "3630.0", "3635.0", 
    "3640.0", "3645.0", "3650.0", "3655.0", "3660.0", "3665.0", "3670.0", "3675.0", "3680.0", "3685.0", "3690.0", 
    "3695.0", "3700.0", "3705.0", "3710.0", "3715.0", "3720.0", "3725.0", "3730.0", "3735.0", "3740.0", "3745.0", 
    "3750.0", "3755.0", "3760.0", "3765.0", "3770.0", "3775.0", "3780.0", "3785.0", "3790.0", "3795.0", "3800.0", 
    "3805.0", "3810.0", "3815.0", "3820.0", "3825.0", "3830.0", "3835.0", "3840.0", "3845.0", "3850.0", "3855.0", 
    "3860.0", "3865.0", "3870.0", "3875.0", "3880.0", "3885.0", "3890.0", "3895.0", "3900.0", "3905.0", "3910.0", 
    "3915.0", "3920.0", "3925.0", "3930.0", "3935.0", "3940.0", "3945.0", "3950.0", "3955.0", "3960.0", "3965.0", 
    "3970.0", "3975.0", "3980.0", "3985.0", "3990.0", "3995.0", "4000.0">>
RefEt == <<
    "0.082", "0.099", "0.15", "0.212", "0.267", "0.303", "0.325", "0.323", "0.299", "0.25024", "0.17589", 
    "0.155", "0.242", "0.333", "0.362", "0.339", "0.311", "0.325", "0.392", "0.479", "0.563", "0.606", "0.618", 
    "0.598", "0.567", "0.529", "0.538", "0.549", "0.533", "0.52", "0.527", "0.559", "0.573", "0.521", "0.478", 
    "0.529", "0.528", "0.468", "0.472", "0.501", "0.45794", "0.433", "0.463", "0.47756", "0.449", "0.508", 
    "0.612", "0.646", "0.621", "0.626", "0.642", "0.611", "0.565", "0.575", "0.605", "0.631", "0.645", "0.6405", 
    "0.58", "0.5", "0.533", "0.652", "0.762", "0.744", "0.70615", "0.676", "0.694", "0.724", "0.717", "0.676", 
    "0.6845", "0.632", "0.587", "0.649", "0.739", "0.80189", "0.72361", "0.68", "0.7058", "0.73318", "0.775", 
    "0.826", "0.76546", "0.719", "0.73513", "0.71152", "0.649", "0.68138", "0.7405", "0.788", "0.82918", 
    "0.91377", "0.99835", "1.0166", "1.0047", "0.98679", "0.95681", "0.934", "1.0046", "1.0958", "1.1098", 
    "1.0429", "0.991", "0.99396", "0.99277", "0.98003", "0.96394", "0.937", "0.95557", "0.98862", "1.0097", 
    "0.97453", "0.88979", "0.829", "0.818", "0.87732", "0.92529", "0.95783", "0.96863", "0.989", "1.0544", 
    "1.0463", "0.971", "0.959", "0.9957", "1.0277", "1.0417", "0.98301", "0.85416", "0.813", "0.91583", 
    "0.97021", "0.94269", "0.95594", "0.96954", "0.93318", "0.92472", "0.93721", "0.899", "0.91969", "1.0122", 
    "1.0849", "1.0534", "1.0129", "0.98383", "0.926", "0.98012", "1.0752", "1.1346", "1.144", "1.1406", "1.0964", 
    "1.025", "0.95914", "0.842", "0.85015", "0.78916", "0.731", "0.85805", "1.0321", "1.089", "1.0265", "0.9415", 
    "0.918", "0.958", "1.045", "1.071", "1.038", "1.0716", "1.059", "1.097", "1.2041", "1.286", "1.2843", 
    "1.2577", "1.2317", "1.157", "1.1459", "1.1944", "1.2795", "1.2934", "1.166", "1.1811", "1.2249", "1.1444", 
    "1.0876", "1.0445", "0.939", "0.93442", "0.925", "0.985", "1.0874", "1.124", "1.104", "1.1813", "1.3149", 
    "1.4144", "1.3765", "1.226", "1.098", "1.152", "1.231", "1.249", "1.1224", "0.95426", "0.82313", "0.73603", 
    "0.71095", "0.821", "0.9862", "1.0802", "1.0296", "0.99113", "1.0279", "1.0354", "1.0186", "1.0067", 
    "0.99743", "1.081", "1.1958", "1.2519", "1.2601", "1.3322", "1.349", "1.24", "1.0312", "0.745", "0.5912", 
    "0.76675", "1.0557", "1.245", "1.3245", "1.1626", "0.8433", "0.652", "0.96142", "1.301", "1.5342", "1.6245", 
    "1.6717", "1.6885", "1.752", "1.814", "1.74", "1.763", "1.715", "1.666", "1.63", "1.699", "1.809", "1.537", 
    "1.715", "1.816", "1.7392", "1.7144", "1.7688", "1.815", "1.766", "1.685", "1.749", "1.599", "1.811", 
    "1.782", "1.721", "1.708", "1.755", "1.699", "1.638", "1.651", "1.523", "1.212", "1.099", "1.822", "1.6913", 
    "1.56", "1.709", "1.868", "1.9", "1.663", "1.601", "1.83", "1.799", "1.922", "1.949", "1.8941", "1.965", 
    "1.7557", "1.99", "2.014", "2.001", "2.069", "2.142", "2.047", "1.8864", "2.018", "2.001", "2.063", "2.077", 
    "2.032", "2.012", "1.9973", "2.0639", "2.078", "2.084", "2.015", "1.984", "2.021", "1.931", "2.012", "2.018", 
    "1.939", "1.969", "2.07", "1.9882", "2.012", "2.08", "2.012", "2.025", "2.086", "2.04", "2.068", "2.061", 
    "2.0623", "2.031", "1.989", "1.979", "1.601", "1.789", "1.935", "1.8224", "2.032", "1.949", "1.856", "1.983", 
    "1.9339", "2.051", "1.949", "1.98", "1.924", "1.923", "1.916", "1.858", "1.86", "1.949", "1.833", "1.9472", 
    "2.025", "1.9354", "1.88", "1.965", "1.91", "1.941", "1.989", "1.866", "1.824", "1.875", "1.891", "1.539", 
    "1.759", "1.704", "1.86", "1.873", "1.915", "1.804", "1.941", "1.928", "1.874", "1.641", "1.88", "1.969", 
    "1.892", "1.995", "1.958", "1.747", "1.869", "1.895", "1.974", "1.824", "1.913", "1.864", "1.8", "1.734", 
    "1.888", "1.851", "1.919", "1.874", "1.8609", "1.882", "1.826", "1.88", "1.863", "1.859", "1.896", "1.842", 
    "1.878", "1.889", "1.857", "1.812", "1.853", "1.755", "1.786", "1.89", "1.801", "1.871", "1.836", "1.849", 
    "1.75", "1.868", "1.859", "1.831", "1.828", "1.762", "1.872", "1.881", "1.873", "1.834", "1.818", "1.862", 
    "1.799", "1.816", "1.834", "1.833", "1.852", "1.863", "1.854", "1.836", "1.792", "1.838", "1.821", "1.624", 
    "1.7218", "1.809", "1.788", "1.792", "1.789", "1.778", "1.796", "1.806", "1.772", "1.764", "1.77", "1.742", 
    "1.715", "1.749", "1.779", "1.773", "1.758", "1.762", "1.751", "1.734", "1.724", "1.712", "1.736", "1.71", 
    "1.655", "1.712", "1.664", "1.641", "1.702", "1.709", "1.711", "1.724", "1.6784", "1.682", "1.667", "1.644", 
    "1.64", "1.693", "1.693", "1.687", "1.665", "1.659", "1.5901", "1.674", "1.637", "1.652", "1.6093", "1.661", 
    "1.665", "1.653", "1.613", "1.61", "1.609", "1.625", "1.614", "1.627", "1.591", "1.606", "1.602", "1.551", 
    "1.526", "1.613", "1.591", "1.598", "1.575", "1.523", "1.3233", "1.384", "1.539", "1.542", "1.558", "1.566", 
    "1.571", "1.563", "1.554", "1.567", "1.555", "1.5354", "1.5348", "1.558", "1.534", "1.529", "1.506", "1.517", 
    "1.513", "1.499", "1.515", "1.5", "1.507", "1.493", "1.494", "1.487", "1.493", "1.476", "1.466", "1.465", 
    "1.433", "1.472", "1.476", "1.478", "1.479", "1.468", "1.454", "1.458", "1.457", "1.435", "1.442", "1.438", 
    "1.417", "1.434", "1.422", "1.4131", "1.3987", "1.4095", "1.4187", "1.433", "1.4138", "1.404", "1.399", 
    "1.39", "1.404", "1.397", "1.3818", "1.3702", "1.3819", "1.3502", "1.3694", "1.365", "1.357", "1.301", 
    "1.3487", "1.348", "1.36", "1.351", "1.3607", "1.3465", "1.3429", "1.3444", "1.337", "1.2796", "1.3357", 
    "1.3104", "1.3333", "1.3108", "1.339", "1.3271", "1.31", "1.312", "1.3", "1.2646", "1.283", "1.2707", 
    "1.2649", "1.2892", "1.2955", "1.292", "1.2892", "1.289", "1.2808", "1.276", "1.274", "1.268", "1.272", 
    "1.265", "1.2809", "1.2771", "1.261", "1.2598", "1.268", "1.25", "1.259", "1.2487", "1.246", "1.2543", 
    "1.2566", "1.2452", "1.2", "1.212", "1.231", "1.2142", "1.2146", "1.2073", "1.212", "1.21", "1.209", "1.208", 
    "1.2102", "1.2028", "1.2014", "1.2067", "1.193", "1.1898", "1.195", "1.1896", "1.181", "1.1874", "1.189", 
    "1.1877", "1.18", "1.1812", "1.1704", "1.1632", "1.15", "1.1449", "1.126", "1.128", "1.1427", "1.158", 
    "1.1501", "1.135", "1.1248", "1.1427", "1.1422", "1.1241", "1.1342", "1.1001", "1.1309", "1.123", "1.1162", 
    "1.098", "1.11", "1.1143", "1.116", "1.118", "1.1174", "1.1091", "1.105", "1.1083", "1.0861", "1.0738", 
    "1.074", "1.076", "1.056", "1.076", "1.0715", "1.0699", "1.0759", "1.0762", "1.0749", "1.062", "1.0563", 
    "1.056", "1.055", "1.0327", "1.0459", "1.0476", "1.0597", "1.0511", "1.0549", "1.04", "1.05", "1.052", 
    "1.0287", "1.0271", "1.014", "1.036", "1.037", "1.006", "1.011", "1.005", "0.91", "0.998", "0.99", "0.981", 
    "0.869", "0.927", "0.99017", "1.0056", "1.007", "1.005", "1.0", "0.999", "1.006", "1.012", "0.99006", 
    "0.97354", "0.858", "0.925", "0.969", "0.959", "0.977", "0.96317", "0.976", "0.96614", "0.94913", "0.93562", 
    "0.962", "0.965", "0.962", "0.94571", "0.94856", "0.91963", "0.94408", "0.9393", "0.94352", "0.95469", 
    "0.92558", "0.923", "0.94066", "0.94367", "0.94236", "0.93928", "0.93259", "0.918", "0.924", "0.926", 
    "0.93425", "0.92686", "0.92378", "0.91396", "0.91378", "0.89834", "0.8772", "0.92233", "0.921", "0.918", 
    "0.9078", "0.9145", "0.90143", "0.88552", "0.89496", "0.8973", "0.89016", "0.9002", "0.8982", "0.8883", 
    "0.8947", "0.8886", "0.8881", "0.8921", "0.8854", "0.8703", "0.8628", "0.83335", "0.86957", "0.87642", 
    "0.84561", "0.87809", "0.8711", "0.86954", "0.86866", "0.87078", "0.86514", "0.86958", "0.86709", "0.85601", 
    "0.85222", "0.85368", "0.85936", "0.85676", "0.84", "0.83153", "0.80616", "0.83814", "0.81854", "0.82441", 
    "0.83138", "0.82809", "0.83137", "0.83303", "0.82867", "0.82019", "0.82402", "0.8205", "0.812", "0.769", 
    "0.802", "0.80583", "0.81147", "0.81483", "0.80627", "0.79982", "0.80173", "0.79761", "0.78808", "0.79579", 
    "0.78598", "0.79503", "0.78526", "0.78789", "0.7914", "0.78186", "0.78785", "0.78149", "0.76882", "0.77348", 
    "0.78054", "0.77208", "0.778", "0.7665", "0.77512", "0.773", "0.77879", "0.77541", "0.76881", "0.77081", 
    "0.7662", "0.76606", "0.76368", "0.755", "0.75694", "0.76161", "0.75714", "0.75639", "0.75851", "0.75392", 
    "0.75347", "0.743", "0.743", "0.742", "0.74255", "0.74741", "0.74677", "0.73836", "0.73133", "0.68365", 
    "0.7177", "0.73093", "0.73339", "0.72934", "0.73055", "0.72562", "0.72496", "0.7196", "0.72265", "0.71062", 
    "0.71419", "0.70659", "0.71566", "0.69606", "0.70127", "0.703", "0.693", "0.699", "0.70057", "0.69918", 
    "0.69943", "0.69594", "0.69722", "0.69", "0.69208", "0.68985", "0.6896", "0.678", "0.68181", "0.684", 
    "0.68431", "0.67731", "0.674", "0.679", "0.6744", "0.6749", "0.67516", "0.6686", "0.67199", "0.66846", 
    "0.65131", "0.66155", "0.66781", "0.66491", "0.66117", "0.66182", "0.65848", "0.65698", "0.65474", "0.65753", 
    "0.65629", "0.6554", "0.64937", "0.63046", "0.64831", "0.63387", "0.64651", "0.63669", "0.64621", "0.64533", 
    "0.63139", "0.63517", "0.63591", "0.60084", "0.62165", "0.62821", "0.63131", "0.61796", "0.63063", "0.61768", 
    "0.62468", "0.62426", "0.62531", "0.61203", "0.6225", "0.60726", "0.60249", "0.609", "0.61392", "0.61181", 
    "0.6157", "0.59145", "0.60728", "0.60908", "0.60442", "0.60799", "0.59692", "0.59221", "0.56065", "0.58252", 
    "0.586", "0.591", "0.587", "0.58216", "0.6", "0.599", "0.58202", "0.595", "0.593", "0.591", "0.59", "0.586", 
    "0.5865", "0.5855", "0.587", "0.5825", "0.58342", "0.578", "0.584", "0.582", "0.575", "0.583", "0.57222", 
    "0.57151", "0.5685", "0.572", "0.575", "0.574", "0.5725", "0.57012", "0.553", "0.56179", "0.56829", 
    "0.56837", "0.56401", "0.568", "0.57", "0.56186", "0.56346", "0.5625", "0.56481", "0.55197", "0.544", 
    "0.553", "0.55573", "0.54303", "0.55531", "0.5496", "0.54501", "0.55001", "0.55407", "0.55408", "0.55032", 
    "0.54788", "0.54623", "0.54531", "0.5417", "0.54308", "0.54651", "0.54731", "0.54022", "0.5437", "0.54334", 
    "0.53548", "0.52928", "0.51899", "0.53336", "0.53708", "0.52684", "0.53482", "0.52227", "0.52984", "0.53415", 
    "0.5164", "0.52875", "0.53074", "0.53063", "0.52686", "0.5276", "0.51852", "0.51036", "0.52296", "0.51703", 
    "0.51504", "0.52199", "0.51843", "0.51743", "0.48821", "0.51098", "0.51605", "0.51519", "0.51455", "0.51012", 
    "0.48402", "0.50583", "0.51354", "0.51175", "0.51064", "0.51127", "0.50592", "0.50561", "0.50286", "0.49217", 
    "0.47434", "0.50005", "0.50579", "0.50705", "0.48836", "0.48696", "0.50195", "0.49869", "0.50143", "0.48962", 
    "0.46636", "0.49225", "0.47909", "0.49064", "0.4919", "0.48932", "0.49044", "0.48878", "0.48764", "0.48599", 
    "0.48234", "0.48433", "0.48343", "0.48133", "0.476", "0.48224", "0.47925", "0.48026", "0.46841", "0.47443", 
    "0.47725", "0.47502", "0.47425", "0.46896", "0.47118", "0.46946", "0.46644", "0.46863", "0.4679", "0.46748", 
    "0.46235", "0.45968", "0.46439", "0.46169", "0.45655", "0.45535", "0.456", "0.45875", "0.45775", "0.46076", 
    "0.46013", "0.4586", "0.45638", "0.45195", "0.45371", "0.45358", "0.45304", "0.45192", "0.4488", "0.45116", 
    "0.44797", "0.45018", "0.44925", "0.44252", "0.44825", "0.44198", "0.44267", "0.44615", "0.43912", "0.43594", 
    "0.44042", "0.44212", "0.4429", "0.4413", "0.44084", "0.43807", "0.44072", "0.44192", "0.44188", "0.44074", 
    "0.43795", "0.43543", "0.42267", "0.37589", "0.41159", "0.42667", "0.42909", "0.42878", "0.43036", "0.42684", 
    "0.42755", "0.41851", "0.42159", "0.42278", "0.42261", "0.41615", "0.41944", "0.41979", "0.41718", "0.41263", 
    "0.41701", "0.41537", "0.41404", "0.40955", "0.40768", "0.40632", "0.41028", "0.41039", "0.40958", "0.40873", 
    "0.40907", "0.40714", "0.40611", "0.40315", "0.39084", "0.40271", "0.39162", "0.39421", "0.40116", "0.39547", 
    "0.40093", "0.39875", "0.39545", "0.39538", "0.39502", "0.39516", "0.39369", "0.39229", "0.38877", "0.39062", 
    "0.3795", "0.38548", "0.38765", "0.3785", "0.38699", "0.38684", "0.38563", "0.38231", "0.38285", "0.38094", 
    "0.3757", "0.37439", "0.38168", "0.3802", "0.37977", "0.37986", "0.37953", "0.37554", "0.3776", "0.37664", 
    "0.3755", "0.37081", "0.37167", "0.37533", "0.37401", "0.37294", "0.36827", "0.36876", "0.36439", "0.36997", 
    "0.36903", "0.36464", "0.37027", "0.36936", "0.36185", "0.36683", "0.36629", "0.36592", "0.36242", "0.36557", 
    "0.35886", "0.35912", "0.35949", "0.36313", "0.36294", "0.36291", "0.35749", "0.3535", "0.3579", "0.35652", 
    "0.36035", "0.35682", "0.35784", "0.35274", "0.35376", "0.35594", "0.35242", "0.35493", "0.35136", "0.35277", 
    "0.35406", "0.34736", "0.35242", "0.35179", "0.35008", "0.3476", "0.34754", "0.34943", "0.34932", "0.34952", 
    "0.34886", "0.33896", "0.33929", "0.34411", "0.34014", "0.34106", "0.34012", "0.34164", "0.34085", "0.34007", 
    "0.34118", "0.34046", "0.33767", "0.3292", "0.3329", "0.33704", "0.33707", "0.33503", "0.33748", "0.33773", 
    "0.33391", "0.3327", "0.33594", "0.32875", "0.32884", "0.32772", "0.33256", "0.32306", "0.32745", "0.33036", 
    "0.32347", "0.32277", "0.32421", "0.33114", "0.33067", "0.32509", "0.32731", "0.32662", "0.32786", "0.32601", 
    "0.32856", "0.31269", "0.31695", "0.31584", "0.3178", "0.31911", "0.31929", "0.32135", "0.3176", "0.32096", 
    "0.32026", "0.31774", "0.31367", "0.31355", "0.31539", "0.31282", "0.3121", "0.30956", "0.31241", "0.31612", 
    "0.31746", "0.31367", "0.31308", "0.31018", "0.30823", "0.3082", "0.31158", "0.30696", "0.31322", "0.3075", 
    "0.31201", "0.3101", "0.30414", "0.30581", "0.30552", "0.29705", "0.30349", "0.30369", "0.3025", "0.30228", 
    "0.30461", "0.30626", "0.30179", "0.30462", "0.29813", "0.30172", "0.30607", "0.30168", "0.29989", "0.26525", 
    "0.2991", "0.30093", "0.30175", "0.29773", "0.302", "0.3019", "0.30074", "0.2914", "0.29684", "0.29946", 
    "0.29528", "0.30077", "0.2999", "0.29743", "0.2692", "0.28319", "0.27149", "0.28367", "0.29376", "0.29028", 
    "0.28805", "0.29394", "0.29446", "0.28845", "0.28729", "0.285", "0.28807", "0.2872", "0.28526", "0.2897", 
    "0.28495", "0.28786", "0.28083", "0.28031", "0.28448", "0.2846", "0.27846", "0.28596", "0.28297", "0.2849", 
    "0.2829", "0.26731", "0.28272", "0.28263", "0.28041", "0.27543", "0.27754", "0.28058", "0.28096", "0.27338", 
    "0.27808", "0.26857", "0.27297", "0.27536", "0.27499", "0.27716", "0.27768", "0.27722", "0.27354", "0.26698", 
    "0.27267", "0.26961", "0.27075", "0.274", "0.2709", "0.26495", "0.26712", "0.26292", "0.27013", "0.26805", 
    "0.2678", "0.26546", "0.26968", "0.26833", "0.26688", "0.26307", "0.26682", "0.26262", "0.26352", "0.26042", 
    "0.26275", "0.26068", "0.26668", "0.26694", "0.26344", "0.26221", "0.24738", "0.26031", "0.2369", "0.25723", 
    "0.26167", "0.26381", "0.26483", "0.25412", "0.25771", "0.25449", "0.26198", "0.25817", "0.25492", "0.25048", 
    "0.23152", "0.24154", "0.24132", "0.25286", "0.25751", "0.25643", "0.25765", "0.24452", "0.24854", "0.25629", 
    "0.24977", "0.25259", "0.24494", "0.24857", "0.24901", "0.25002", "0.24703", "0.24748", "0.24544", "0.24999", 
    "0.24858", "0.23312", "0.24078", "0.24125", "0.24581", "0.2435", "0.24434", "0.23248", "0.23644", "0.24415", 
    "0.24224", "0.23407", "0.23386", "0.23702", "0.24166", "0.2424", "0.23746", "0.23958", "0.24037", "0.24149", 
    "0.24111", "0.23655", "0.23932", "0.23884", "0.23585", "0.23276", "0.23735", "0.23676", "0.22747", "0.22708", 
    "0.22205", "0.22571", "0.22393", "0.22402", "0.22879", "0.22572", "0.22512", "0.22899", "0.2291", "0.22898", 
    "0.22354", "0.2284", "0.22369", "0.22802", "0.22533", "0.22654", "0.2239", "0.22607", "0.22564", "0.22532", 
    "0.22221", "0.22412", "0.22543", "0.22421", "0.22265", "0.22252", "0.22137", "0.21853", "0.22016", "0.21617", 
    "0.21809", "0.22208", "0.22096", "0.2121", "0.21606", "0.21907", "0.21621", "0.21319", "0.21548", "0.21585", 
    "0.21295", "0.20641", "0.19848", "0.20341", "0.20893", "0.21198", "0.21306", "0.21026", "0.21123", "0.21081", 
    "0.20805", "0.20845", "0.21203", "0.21211", "0.21122", "0.21068", "0.21055", "0.20962", "0.2085", "0.20879", 
    "0.20804", "0.20539", "0.2052", "0.20428", "0.19894", "0.20189", "0.19799", "0.19688", "0.19309", "0.182", 
    "0.19001", "0.18624", "0.18518", "0.18509", "0.18243", "0.18143", "0.17969", "0.176", "0.17553", "0.17411", 
    "0.17371", "0.17102", "0.168", "0.16884", "0.16859", "0.155", "0.16", "0.16257", "0.15921", "0.1576", 
    "0.15552", "0.15288", "0.15337", "0.15126", "0.14933", "0.1471", "0.14565", "0.13231", "0.14667", "0.14573", 
    "0.14041", "0.13842", "0.14041", "0.13904", "0.13654", "0.13611", "0.13463", "0.13447", "0.13145", "0.13243", 
    "0.1295", "0.1195", "0.12627", "0.12833", "0.1261", "0.12291", "0.12375", "0.1215", "0.11968", "0.11902", 
    "0.11977", "0.11684", "0.11673", "0.11501", "0.11512", "0.11399", "0.11192", "0.11176", "0.10969", "0.10915", 
    "0.1072", "0.10756", "0.10592", "0.10471", "0.1032", "0.10182", "0.10095", "0.10095", "0.09933", "0.0983", 
    "0.09754", "0.09599", "0.09624", "0.09575", "0.09463", "0.09385", "0.09314", "0.09218", "0.09238", "0.09112", 
    "0.09105", "0.08994", "0.08971", "0.08888", "0.08789", "0.082", "0.08537", "0.08576", "0.08464", "0.08468", 
    "0.08314", "0.08347", "0.08279", "0.0809", "0.08081", "0.08041", "0.07999", "0.07884", "0.0784", "0.07793", 
    "0.07651", "0.07625", "0.07537", "0.07434", "0.07409", "0.07328", "0.0731", "0.07263", "0.07139", "0.07138", 
    "0.07119", "0.0693", "0.06964", "0.0694", "0.0689", "0.06815", "0.06763", "0.06556", "0.06622", "0.06572", 
    "0.06522", "0.0651", "0.06434", "0.0626", "0.06307", "0.06301", "0.06239", "0.06141", "0.06181", "0.05913", 
    "0.06036", "0.06007", "0.05974", "0.05944", "0.05915", "0.05698", "0.05782", "0.05733", "0.05719", "0.05647", 
    "0.05627", "0.05556", "0.05459", "0.05416", "0.05451", "0.0543", "0.0534", "0.05337", "0.0521", "0.05177", 
    "0.05222", "0.04889", "0.05138", "0.05082", "0.0496", "0.04876", "0.04814", "0.04765", "0.0477", "0.04712", 
    "0.04677", "0.04661", "0.04626", "0.04593", "0.0454", "0.04516", "0.04485", "0.04448", "0.0441", "0.04327", 
    "0.04341", "0.04304", "0.04291", "0.0428", "0.0425", "0.04228", "0.0419", "0.04058", "0.04116", "0.04096", 
    "0.04022", "0.04018", "0.03996", "0.03959", "0.03948", "0.03895", "0.0391", "0.03861", "0.03843", "0.03816", 
    "0.03779", "0.03746", "0.03712", "0.03693", "0.03668", "0.03656", "0.03638", "0.03613", "0.03601", "0.03574", 
    "0.03553", "0.03538", "0.03518", "0.03486", "0.03455", "0.0344", "0.03426", "0.03393", "0.03364", "0.03342", 
    "0.0332", "0.03293", "0.03276", "0.03253", "0.03242", "0.03226", "0.03206", "0.03184", "0.0317", "0.03145", 
    "0.03118", "0.03095", "0.03068", "0.03043", "0.03016", "0.02996", "0.0296", "0.0294", "0.0294", "0.02922", 
    "0.02907", "0.02896", "0.02881", "0.02867", "0.0285", "0.02822", "0.02804", "0.02778", "0.02757", "0.02733", 
    "0.02714", "0.02684", "0.02668", "0.02656", "0.02638", "0.02626", "0.02612", "0.02601", "0.0258", "0.02569", 
    "0.02554", "0.0254", "0.02525", "0.02512", "0.02498", "0.02486", "0.02466", "0.02454", "0.02442", "0.02421", 
    "0.02393", "0.02402", "0.02395", "0.02386", "0.02376", "0.02354", "0.02344", "0.02335", "0.02315", "0.02295", 
    "0.0228", "0.02263", "0.02243", "0.02228", "0.02211", "0.02177", "0.02174", "0.02158", "0.02145", "0.02136", 
    "0.02118", "0.02107", "0.02088", "0.02083", "0.02073", "0.02066", "0.02052", "0.02047", "0.02032", "0.02024", 
    "0.02019", "0.02008", "0.01994", "0.01986", "0.01976", "0.01962", "0.01954", "0.01942", "0.01938", "0.01926", 
    "0.01921", "0.0191", "0.01909", "0.0189", "0.0188", "0.0187", "0.0186", "0.01848", "0.01837", "0.01832", 
    "0.01826", "0.01803", "0.01792", "0.01786", "0.0177", "0.0176", "0.0173", "0.01728", "0.01713", "0.01703", 
    "0.01685", "0.01678", "0.0166", "0.0165", "0.01636", "0.01629", "0.01618", "0.01611", "0.01601", "0.01598", 
    "0.0159", "0.0158", "0.01564", "0.01565", "0.01554", "0.01547", "0.01543", "0.01532", "0.01522", "0.01515", 
    "0.01505", "0.01502", "0.01492", "0.01488", "0.0148", "0.01476", "0.01466", "0.01456", "0.01448", "0.01445", 
    "0.01436", "0.01432", "0.01423", "0.01415", "0.01405", "0.01402", "0.01393", "0.01389", "0.0138", "0.01376", 
    "0.01367", "0.01366", "0.01357", "0.01345", "0.01336", "0.01336", "0.01325", "0.01318", "0.01308", "0.01305", 
    "0.01298", "0.01294", "0.01285", "0.01283", "0.01274", "0.01272", "0.01264", "0.01261", "0.01251", "0.01249", 
    "0.0124", "0.01236", "0.01228", "0.01222", "0.01215", "0.01215", "0.01204", "0.01203", "0.01189", "0.01183", 
    "0.01177", "0.01172", "0.01155", "0.0116", "0.01151", "0.0115", "0.01144", "0.01143", "0.01134", "0.01128", 
    "0.01108", "0.01108", "0.01104", "0.011", "0.01094", "0.01093", "0.01086", "0.0108", "0.01074", "0.01073", 
    "0.01063", "0.01062", "0.01053", "0.01053", "0.01043", "0.01041", "0.01034", "0.01033", "0.01025", "0.01021", 
    "0.01015", "0.01013", "0.01005", "0.01003", "0.00994", "0.00991", "0.00983", "0.00983", "0.00975", "0.0097", 
    "0.00971", "0.00962", "0.0096", "0.00959", "0.00952", "0.0095", "0.00941", "0.0094", "0.00932", "0.0093", 
    "0.00923", "0.0092", "0.00911", "0.00908", "0.00902", "0.00901", "0.00893", "0.00891", "0.00884", "0.0088", 
    "0.00878", "0.0087", "0.00868">>
RefGlobal == <<
    "4.7309e-23", "1.2307e-21", "5.6895e-21", "1.5662e-19", "1.1946e-18", "4.5436e-18", "1.8452e-17", 
    "3.536e-17", "7.267e-16", "2.4856e-15", "8.0142e-15", "4.2613e-14", "1.3684e-13", "8.3823e-13", "2.7367e-12", 
    "1.0903e-11", "6.2337e-11", "1.7162e-10", "5.6265e-10", "2.0749e-09", "6.0168e-09", "1.3783e-08", 
    "3.5052e-08", "1.0913e-07", "2.683e-07", "4.2685e-07", "8.6466e-07", "2.2707e-06", "4.1744e-06", 
    "6.5911e-06", "1.229e-05", "2.7826e-05", "4.7904e-05", "7.1345e-05", "9.68e-05", "0.00018608", "0.00028988", 
    "0.00035789", "0.00049211", "0.00086068", "0.0010205", "0.001245", "0.00193", "0.0026914", "0.0029209", 
    "0.004284", "0.0070945", "0.0089795", "0.0094701", "0.011953", "0.016463", "0.018719", "0.018577", 
    "0.021108", "0.027849", "0.035635", "0.037837", "0.04143", "0.040534", "0.043306", "0.050939", "0.06554", 
    "0.082922", "0.08408", "0.093376", "0.098984", "0.10733", "0.10757", "0.11969", "0.1306", "0.13625", 
    "0.11838", "0.12348", "0.15036", "0.17158", "0.18245", "0.17594", "0.18591", "0.2047", "0.19589", "0.20527", 
    "0.24525", "0.25024", "0.23843", "0.22203", "0.21709", "0.21226", "0.24861", "0.27537", "0.28321", "0.27894", 
    "0.32436", "0.3812", "0.40722", "0.39806", "0.38465", "0.35116", "0.37164", "0.42235", "0.46878", "0.47139", 
    "0.428", "0.40262", "0.41806", "0.43623", "0.43919", "0.42944", "0.40724", "0.41497", "0.44509", "0.46388", 
    "0.45313", "0.41519", "0.38214", "0.3738", "0.40051", "0.43411", "0.45527", "0.46355", "0.47446", "0.5018", 
    "0.50071", "0.47139", "0.46935", "0.48934", "0.50767", "0.51489", "0.48609", "0.41843", "0.40307", "0.45898", 
    "0.48932", "0.47778", "0.48657", "0.49404", "0.47674", "0.47511", "0.48336", "0.46564", "0.47805", "0.52798", 
    "0.56741", "0.55172", "0.53022", "0.51791", "0.48962", "0.5204", "0.57228", "0.60498", "0.61156", "0.6114", 
    "0.59028", "0.55387", "0.51942", "0.45673", "0.46215", "0.43006", "0.39926", "0.46953", "0.56549", "0.59817", 
    "0.56531", "0.52024", "0.50956", "0.5342", "0.5851", "0.60191", "0.58541", "0.60628", "0.60058", "0.62359", 
    "0.68628", "0.73532", "0.73658", "0.72285", "0.70914", "0.66759", "0.6631", "0.69315", "0.74469", "0.75507", 
    "0.68261", "0.69338", "0.72051", "0.67444", "0.64253", "0.61886", "0.55786", "0.5564", "0.55227", "0.5893", 
    "0.65162", "0.6748", "0.6639", "0.71225", "0.79455", "0.85595", "0.83418", "0.74389", "0.66683", "0.70077", 
    "0.75075", "0.76383", "0.68837", "0.58678", "0.50762", "0.45499", "0.44049", "0.50968", "0.61359", "0.67355", 
    "0.64363", "0.621", "0.6457", "0.65147", "0.64204", "0.63582", "0.63136", "0.68543", "0.7597", "0.79699", 
    "0.80371", "0.85138", "0.86344", "0.79493", "0.66257", "0.47975", "0.38152", "0.49567", "0.68385", "0.80772", 
    "0.86038", "0.75655", "0.55017", "0.42619", "0.62945", "0.85249", "1.0069", "1.0693", "1.1021", "1.1141", 
    "1.1603", "1.2061", "1.1613", "1.1801", "1.1511", "1.1227", "1.1026", "1.1514", "1.2299", "1.0485", "1.1738", 
    "1.2478", "1.1971", "1.1842", "1.2258", "1.2624", "1.2312", "1.1777", "1.2258", "1.1232", "1.2757", "1.2583", 
    "1.2184", "1.2117", "1.2488", "1.2135", "1.1724", "1.1839", "1.0963", "0.87462", "0.79394", "1.3207", 
    "1.2288", "1.1352", "1.2452", "1.3659", "1.3943", "1.2238", "1.1775", "1.3499", "1.3313", "1.425", "1.4453", 
    "1.4084", "1.4619", "1.3108", "1.4903", "1.5081", "1.5045", "1.5595", "1.6173", "1.5482", "1.4297", "1.5335", 
    "1.5224", "1.5724", "1.5854", "1.5514", "1.5391", "1.5291", "1.5827", "1.5975", "1.6031", "1.5544", "1.535", 
    "1.5673", "1.4973", "1.5619", "1.5682", "1.5077", "1.5331", "1.6126", "1.5499", "1.5671", "1.6185", "1.5631", 
    "1.5724", "1.623", "1.5916", "1.6181", "1.6177", "1.6236", "1.6038", "1.5734", "1.5683", "1.2716", "1.4241", 
    "1.5413", "1.4519", "1.6224", "1.5595", "1.4869", "1.5903", "1.5525", "1.6485", "1.5676", "1.5944", "1.5509", 
    "1.5507", "1.5451", "1.4978", "1.4966", "1.5653", "1.4587", "1.5635", "1.6264", "1.556", "1.5165", "1.5893", 
    "1.5481", "1.5769", "1.6186", "1.5206", "1.4885", "1.5314", "1.5455", "1.2594", "1.4403", "1.3957", "1.5236", 
    "1.5346", "1.569", "1.4789", "1.5905", "1.5781", "1.5341", "1.3417", "1.5357", "1.6071", "1.5446", "1.6292", 
    "1.5998", "1.4286", "1.5302", "1.5535", "1.6199", "1.4989", "1.5738", "1.5352", "1.4825", "1.4251", "1.5511", 
    "1.5256", "1.5792", "1.5435", "1.5291", "1.549", "1.5049", "1.552", "1.5399", "1.5382", "1.5697", "1.525", 
    "1.5549", "1.5634", "1.5366", "1.4988", "1.531", "1.4483", "1.474", "1.5595", "1.4847", "1.5408", "1.5106", 
    "1.5201", "1.4374", "1.532", "1.518", "1.4807", "1.4816", "1.4331", "1.5134", "1.5198", "1.5119", "1.4777", 
    "1.4654", "1.5023", "1.456", "1.477", "1.502", "1.5089", "1.532", "1.5479", "1.5448", "1.5324", "1.4953", 
    "1.5281", "1.4934", "1.2894", "1.3709", "1.4662", "1.4354", "1.4561", "1.4491", "1.4308", "1.4745", "1.4788", 
    "1.4607", "1.4606", "1.4753", "1.4579", "1.436", "1.4664", "1.4921", "1.4895", "1.4822", "1.4911", "1.4862", 
    "1.4749", "1.4686", "1.4611", "1.4831", "1.4621", "1.4176", "1.4697", "1.431", "1.4128", "1.4664", "1.4733", 
    "1.4739", "1.4802", "1.4269", "1.4165", "1.4118", "1.4026", "1.4012", "1.4417", "1.3631", "1.4114", "1.3924", 
    "1.4161", "1.3638", "1.4508", "1.4284", "1.4458", "1.4128", "1.461", "1.4707", "1.4646", "1.434", "1.4348", 
    "1.4376", "1.4525", "1.4462", "1.4567", "1.415", "1.4086", "1.3952", "1.3519", "1.3594", "1.4447", "1.3871", 
    "1.4311", "1.4153", "1.3499", "1.1851", "1.2393", "1.3855", "1.3905", "1.3992", "1.3933", "1.3819", "1.3844", 
    "1.3967", "1.4214", "1.4203", "1.4102", "1.415", "1.4394", "1.4196", "1.4169", "1.3972", "1.4094", "1.4074", 
    "1.3958", "1.412", "1.3991", "1.4066", "1.3947", "1.3969", "1.3915", "1.3981", "1.383", "1.3739", "1.3748", 
    "1.3438", "0.96824", "1.1206", "1.1278", "1.1821", "1.2333", "1.2689", "1.2609", "1.2464", "1.2714", 
    "1.2684", "1.3403", "1.3192", "1.2918", "1.2823", "1.2659", "1.2674", "1.2747", "1.3078", "1.3214", "1.3144", 
    "1.309", "1.3048", "1.3095", "1.3175", "1.3155", "1.3071", "1.2918", "1.3029", "1.2587", "1.2716", "1.1071", 
    "1.0296", "0.92318", "0.9855", "1.0861", "1.2407", "1.1444", "1.0555", "1.038", "1.0813", "1.085", "1.04", 
    "1.0466", "1.1285", "1.0703", "1.1534", "1.1962", "1.2357", "1.2178", "1.2059", "1.2039", "1.2269", "1.1905", 
    "1.2195", "1.2148", "1.2153", "1.2405", "1.2503", "1.2497", "1.247", "1.2477", "1.2401", "1.2357", "1.2341", 
    "1.2286", "1.233", "1.2266", "1.242", "1.2383", "1.2232", "1.2221", "1.2295", "1.1945", "0.26604", "0.15396", 
    "0.68766", "0.37952", "0.53878", "0.68601", "0.81461", "0.97417", "1.1138", "1.1278", "1.1608", "1.1686", 
    "1.1778", "1.1771", "1.1771", "1.1771", "1.1798", "1.1727", "1.1713", "1.1765", "1.1636", "1.1607", "1.1662", 
    "1.1614", "1.1536", "1.1586", "1.1592", "1.145", "1.1305", "1.1257", "1.091", "1.1058", "1.0953", "1.0875", 
    "1.0972", "1.0932", "1.0742", "1.0913", "1.1121", "1.0905", "1.0725", "1.0843", "1.0856", "1.0657", "1.0782", 
    "1.0545", "1.0974", "1.0859", "1.0821", "1.0548", "1.0559", "1.0533", "1.0268", "1.0086", "0.90356", 
    "0.89523", "0.83216", "0.85183", "0.82259", "0.90519", "0.86188", "0.99764", "0.95157", "0.67271", "0.93506", 
    "0.96935", "0.93381", "0.98465", "0.84979", "0.9293", "0.91601", "0.92392", "0.89426", "0.9565", "0.93412", 
    "1.0032", "0.97234", "1.0092", "0.99901", "1.0013", "1.0157", "1.0101", "0.99703", "1.0053", "0.98631", 
    "1.0165", "1.0187", "0.9917", "0.99217", "0.98596", "0.89372", "0.97493", "0.96927", "0.96486", "0.85112", 
    "0.913", "0.97317", "0.99166", "0.99196", "0.99171", "0.98816", "0.98679", "0.99449", "1.0005", "0.97916", 
    "0.96324", "0.849", "0.91546", "0.9592", "0.94956", "0.96755", "0.95387", "0.96686", "0.95721", "0.94042", 
    "0.92687", "0.95277", "0.95615", "0.95237", "0.93656", "0.93957", "0.90861", "0.93245", "0.92927", "0.93305", 
    "0.94423", "0.90752", "0.91062", "0.92228", "0.93455", "0.92393", "0.92584", "0.90881", "0.87327", "0.8513", 
    "0.81357", "0.76253", "0.66566", "0.7178", "0.54871", "0.7426", "0.59933", "0.66791", "0.68889", "0.84457", 
    "0.81709", "0.77558", "0.63854", "0.65217", "0.70431", "0.62467", "0.66808", "0.68893", "0.62834", "0.62649", 
    "0.67836", "0.57646", "0.73017", "0.59271", "0.73877", "0.74414", "0.78049", "0.70026", "0.74504", "0.7215", 
    "0.7111", "0.70331", "0.78742", "0.58968", "0.55127", "0.4321", "0.40921", "0.30086", "0.24841", "0.1438", 
    "0.25084", "0.16142", "0.16338", "0.20058", "0.39887", "0.47181", "0.37195", "0.40532", "0.27834", "0.28579", 
    "0.36821", "0.19461", "0.37112", "0.27423", "0.49396", "0.14726", "0.48378", "0.26891", "0.34362", "0.42411", 
    "0.34117", "0.32821", "0.27067", "0.46101", "0.37385", "0.42066", "0.4612", "0.44174", "0.50503", "0.4586", 
    "0.50374", "0.50275", "0.5024", "0.6521", "0.68622", "0.63461", "0.71397", "0.68765", "0.60648", "0.57529", 
    "0.58987", "0.57191", "0.63864", "0.61509", "0.63815", "0.60468", "0.71338", "0.69218", "0.66865", "0.73732", 
    "0.68817", "0.75083", "0.73928", "0.73462", "0.74906", "0.73227", "0.75358", "0.75102", "0.73728", "0.7541", 
    "0.75176", "0.74884", "0.73971", "0.73887", "0.73857", "0.73532", "0.74442", "0.72805", "0.73442", "0.72336", 
    "0.68174", "0.71252", "0.72753", "0.72685", "0.71972", "0.71914", "0.72278", "0.71877", "0.71761", "0.72068", 
    "0.70817", "0.71129", "0.70337", "0.71422", "0.68878", "0.69896", "0.70175", "0.6897", "0.69508", "0.69058", 
    "0.69753", "0.69636", "0.69305", "0.69385", "0.68628", "0.69055", "0.68736", "0.68787", "0.67613", "0.68015", 
    "0.68234", "0.68202", "0.67497", "0.67172", "0.67636", "0.6717", "0.67176", "0.672", "0.66525", "0.66833", 
    "0.66452", "0.64714", "0.65694", "0.66274", "0.65896", "0.65463", "0.65521", "0.65118", "0.64919", "0.64646", 
    "0.64847", "0.64641", "0.64482", "0.63818", "0.61875", "0.63585", "0.62121", "0.63266", "0.62239", "0.63196", 
    "0.62913", "0.61713", "0.62032", "0.61944", "0.58626", "0.60469", "0.61661", "0.61536", "0.60363", "0.62158", 
    "0.59252", "0.61471", "0.60434", "0.60321", "0.60474", "0.59722", "0.58083", "0.5894", "0.59814", "0.57852", 
    "0.5933", "0.5541", "0.56697", "0.59317", "0.57919", "0.55573", "0.58835", "0.58124", "0.51058", "0.53965", 
    "0.52067", "0.50323", "0.57852", "0.50291", "0.50772", "0.48577", "0.49696", "0.46883", "0.46637", "0.46765", 
    "0.50644", "0.39792", "0.48304", "0.41565", "0.41278", "0.47899", "0.33154", "0.41357", "0.2685", "0.29985", 
    "0.24987", "0.20136", "0.079618", "0.21753", "0.11317", "0.14189", "0.18586", "0.081686", "0.12817", 
    "0.1087", "0.14428", "0.051589", "0.15725", "0.099224", "0.10591", "0.070574", "0.2956", "0.23411", 
    "0.15331", "0.04174", "0.015462", "0.12876", "0.28785", "0.20329", "0.2985", "0.25599", "0.19337", "0.22479", 
    "0.31183", "0.11326", "0.14604", "0.15764", "0.059176", "0.27113", "0.21854", "0.12164", "0.2034", "0.24762", 
    "0.23812", "0.14248", "0.31316", "0.2809", "0.31458", "0.31171", "0.33693", "0.28648", "0.34753", "0.35002", 
    "0.46857", "0.40188", "0.3886", "0.37494", "0.40996", "0.41954", "0.4231", "0.45873", "0.44831", "0.45483", 
    "0.45642", "0.33692", "0.4524", "0.47679", "0.47235", "0.36", "0.48371", "0.44069", "0.45514", "0.32318", 
    "0.4387", "0.41985", "0.40741", "0.47715", "0.45575", "0.33504", "0.41569", "0.46239", "0.4466", "0.47336", 
    "0.45434", "0.4689", "0.44696", "0.43131", "0.47715", "0.43392", "0.36489", "0.44825", "0.43708", "0.43717", 
    "0.43409", "0.36247", "0.43692", "0.48086", "0.42986", "0.43346", "0.41428", "0.45336", "0.42232", "0.42489", 
    "0.46956", "0.43407", "0.4278", "0.4664", "0.45528", "0.45934", "0.44663", "0.45805", "0.46531", "0.45139", 
    "0.44406", "0.44808", "0.46236", "0.46819", "0.43304", "0.46658", "0.46721", "0.46003", "0.47203", "0.46633", 
    "0.45397", "0.47016", "0.46504", "0.46908", "0.46339", "0.46797", "0.46272", "0.46077", "0.46197", "0.46247", 
    "0.45754", "0.45528", "0.45655", "0.45945", "0.45746", "0.4586", "0.45966", "0.45705", "0.45258", "0.45097", 
    "0.44773", "0.44363", "0.4507", "0.44023", "0.43532", "0.44496", "0.42725", "0.4311", "0.41146", "0.39567", 
    "0.40019", "0.37148", "0.3957", "0.38527", "0.38822", "0.37051", "0.24652", "0.38744", "0.40825", "0.40879", 
    "0.40625", "0.40614", "0.41233", "0.41693", "0.42001", "0.42763", "0.42456", "0.42204", "0.41335", "0.37305", 
    "0.40733", "0.42078", "0.42399", "0.42714", "0.42213", "0.41989", "0.40936", "0.41285", "0.41786", "0.39618", 
    "0.41257", "0.40421", "0.40514", "0.38957", "0.3713", "0.39183", "0.40852", "0.35312", "0.36228", "0.39181", 
    "0.34621", "0.30062", "0.38382", "0.38453", "0.30594", "0.34696", "0.38413", "0.30114", "0.33366", "0.33337", 
    "0.31352", "0.28833", "0.28581", "0.32419", "0.31217", "0.33328", "0.26855", "0.25872", "0.29866", "0.30217", 
    "0.23279", "0.26249", "0.32224", "0.28051", "0.26625", "0.2345", "0.17759", "0.22923", "0.1448", "0.14579", 
    "0.20304", "0.16925", "0.23117", "0.18348", "0.16454", "0.17804", "0.17681", "0.16831", "0.17039", "0.17798", 
    "0.12711", "0.075645", "0.10904", "0.058186", "0.060119", "0.0047451", "0.016159", "0.016025", "0.0046298", 
    "0.0015164", "9.6096e-05", "0.00029009", "3.6034e-06", "4.807e-05", "7.1786e-05", "4.1948e-06", "7.3439e-07", 
    "2.1404e-06", "4.8133e-09", "1.8076e-11", "3.1563e-06", "1.3589e-06", "9.0764e-12", "1.2791e-05", 
    "4.9764e-06", "1.481e-13", "5.1667e-07", "2.92e-07", "1.9731e-08", "2.7498e-06", "4.4401e-05", "0.00017917", 
    "0.00032332", "0.00025748", "0.0001227", "0.0011089", "5.2164e-05", "8.1587e-05", "2.3716e-06", "2.5672e-06", 
    "4.4017e-08", "6.1689e-07", "2.0899e-06", "2.5215e-06", "0.00019896", "4.0262e-06", "0.00058098", 
    "0.00049328", "0.00034384", "2.3782e-05", "0.00011586", "7.5526e-05", "6.7136e-07", "6.3215e-09", 
    "4.9057e-05", "0.0012704", "0.00081226", "3.2466e-09", "1.0528e-08", "0.0018353", "0.00238", "0.00073892", 
    "3.6444e-07", "0.0020448", "0.00017457", "0.0016493", "0.00061919", "0.00046653", "0.0021142", "0.0026396", 
    "0.023353", "0.00036378", "0.00018366", "0.035565", "0.011759", "0.013559", "0.0021442", "0.0082718", 
    "0.0091637", "0.046314", "0.0092198", "0.016975", "0.02585", "0.027792", "0.049546", "0.0045588", "0.03802", 
    "0.061601", "0.050156", "0.0025194", "0.035834", "0.020962", "0.021416", "0.038351", "0.02988", "0.013263", 
    "0.051039", "0.039601", "0.0318", "0.036317", "0.045063", "0.061791", "0.049751", "0.023095", "0.036215", 
    "0.11569", "0.10213", "0.027412", "0.011271", "0.062361", "0.081978", "0.13759", "0.06615", "0.088509", 
    "0.117", "0.13643", "0.16307", "0.085421", "0.090276", "0.1306", "0.043225", "0.15184", "0.093383", 
    "0.065197", "0.036054", "0.076942", "0.094845", "0.049678", "0.017848", "0.046771", "0.070198", "0.097339", 
    "0.18463", "0.068778", "0.069736", "0.06348", "0.12001", "0.060637", "0.11529", "0.05849", "0.14859", 
    "0.13747", "0.12503", "0.1234", "0.060629", "0.09418", "0.18973", "0.17478", "0.19778", "0.16441", "0.18157", 
    "0.20367", "0.18253", "0.16852", "0.2285", "0.18968", "0.21759", "0.25061", "0.26552", "0.23356", "0.18493", 
    "0.16029", "0.18402", "0.25773", "0.25514", "0.24302", "0.1869", "0.27052", "0.26474", "0.26068", "0.24239", 
    "0.22571", "0.26573", "0.25683", "0.24929", "0.25211", "0.24437", "0.2645", "0.27505", "0.26378", "0.28004", 
    "0.27539", "0.25884", "0.26745", "0.2622", "0.27928", "0.27244", "0.25522", "0.26973", "0.27839", "0.27714", 
    "0.26892", "0.26686", "0.27464", "0.27336", "0.27202", "0.27295", "0.26491", "0.26904", "0.26927", "0.27208", 
    "0.2721", "0.27705", "0.27481", "0.27309", "0.26675", "0.27342", "0.2699", "0.27058", "0.27182", "0.27132", 
    "0.26474", "0.26759", "0.2631", "0.27062", "0.26848", "0.26808", "0.26568", "0.27002", "0.26756", "0.26667", 
    "0.26264", "0.26728", "0.26245", "0.26308", "0.25722", "0.25452", "0.24175", "0.23507", "0.23775", "0.23407", 
    "0.24145", "0.23974", "0.24678", "0.21602", "0.23516", "0.23672", "0.24464", "0.2487", "0.24195", "0.24755", 
    "0.24904", "0.25874", "0.25569", "0.25303", "0.25107", "0.23233", "0.24179", "0.24197", "0.25225", "0.25833", 
    "0.25624", "0.25823", "0.24452", "0.24692", "0.25421", "0.24202", "0.2381", "0.22323", "0.22413", "0.22397", 
    "0.22842", "0.23683", "0.2414", "0.23296", "0.2299", "0.22727", "0.2176", "0.2268", "0.23076", "0.23719", 
    "0.23838", "0.24104", "0.2305", "0.23465", "0.24352", "0.241", "0.23449", "0.2343", "0.23754", "0.24246", 
    "0.24269", "0.23782", "0.23971", "0.24078", "0.24126", "0.24137", "0.23651", "0.23806", "0.23821", "0.23267", 
    "0.23282", "0.23367", "0.23539", "0.227", "0.22007", "0.22026", "0.21511", "0.2196", "0.22082", "0.21535", 
    "0.22355", "0.21822", "0.21749", "0.22768", "0.21655", "0.21867", "0.22526", "0.20855", "0.22373", "0.22277", 
    "0.21583", "0.22231", "0.22101", "0.22223", "0.22487", "0.2212", "0.22332", "0.22384", "0.21908", "0.22235", 
    "0.22098", "0.21178", "0.17884", "0.21068", "0.21459", "0.21516", "0.22168", "0.21879", "0.21147", "0.21629", 
    "0.21575", "0.2136", "0.21145", "0.21229", "0.20915", "0.21303", "0.20558", "0.19447", "0.20366", "0.20906", 
    "0.19797", "0.21321", "0.21026", "0.20484", "0.21013", "0.20718", "0.20523", "0.19303", "0.20708", "0.21134", 
    "0.20477", "0.20968", "0.20922", "0.18107", "0.20739", "0.20551", "0.19975", "0.20396", "0.19778", "0.1879", 
    "0.18965", "0.18698", "0.17808", "0.17407", "0.16154", "0.16818", "0.15481", "0.16566", "0.15301", "0.15998", 
    "0.13284", "0.14172", "0.11484", "0.1005", "0.076981", "0.088904", "0.046931", "0.031828", "0.014815", 
    "0.0096911", "0.0032816", "0.00098755", "0.0012744", "5.2041e-06", "6.419e-06", "6.2703e-08", "6.2658e-06", 
    "2.9993e-06", "2.8396e-07", "1.1151e-05", "1.6982e-05", "2.6662e-10", "4.513e-10", "7.7505e-05", "4.389e-05", 
    "0.00022333", "0.00012947", "8.6221e-07", "5.6667e-07", "2.3045e-05", "1.9947e-05", "0.00045069", 
    "0.00093615", "0.00055242", "0.0035935", "0.0032821", "0.010863", "0.016727", "0.010036", "0.021906", 
    "0.028563", "0.048847", "0.067857", "0.075512", "0.083063", "0.085613", "0.08119", "0.038156", "0.015001", 
    "0.039748", "0.026648", "0.044981", "0.07401", "0.084856", "0.096386", "0.089781", "0.091074", "0.067927", 
    "0.054906", "0.069193", "0.061875", "0.065676", "0.077443", "0.086812", "0.085102", "0.0891", "0.089747", 
    "0.086133", "0.093153", "0.089654", "0.091673", "0.087588", "0.088632", "0.089774", "0.090044", "0.090767", 
    "0.089486", "0.084639", "0.08484", "0.08417", "0.07631", "0.081996", "0.080448", "0.081808", "0.07455", 
    "0.079068", "0.078992", "0.071202", "0.07401", "0.079315", "0.076273", "0.07773", "0.075453", "0.075773", 
    "0.074299", "0.073118", "0.070838", "0.071937", "0.06769", "0.066929", "0.068137", "0.064867", "0.064021", 
    "0.066288", "0.06308", "0.06322", "0.061265", "0.058824", "0.059171", "0.06387", "0.058141", "0.052031", 
    "0.056215", "0.056824", "0.057967", "0.045836", "0.0514", "0.041536", "0.047473", "0.050237", "0.049409", 
    "0.030817", "0.044147", "0.042552", "0.030826", "0.037109", "0.040594", "0.04415", "0.033599", "0.033813", 
    "0.0273", "0.02659", "0.033078", "0.045099", "0.014878", "0.043249", "0.020798", "0.013611", "0.024853", 
    "0.033363", "0.024148", "0.016727", "0.016455", "0.0080395", "0.0056102", "0.0035113", "0.0028772", 
    "0.0070642", "0.0015191", "0.0022163", "0.0005188", "0.00037054", "4.1393e-05", "6.3593e-07", "1.7502e-07", 
    "3.7716e-07", "5.3758e-11", "2.8222e-13", "1.0435e-09", "3.102e-11", "1.5955e-14", "1.5258e-18", 
    "1.0786e-27", "3.8214e-22", "1.7194e-34", "5.4793e-31", "2.2838e-33", "4.4912e-28", "5.8053e-35", 
    "5.9447e-34", "1.1196e-37", "5.6505e-29", "3.8687e-28", "2.8026e-45", "3.9027e-16", "1.175e-16", 
    "8.9988e-19", "1.4295e-19", "1.3133e-27", "2.6068e-25", "1.1123e-37", "0.0", "0.0", "0.0", "0.0", 
    "1.0226e-29", "7.1284e-33", "0.0", "2.9315e-42", "1.125e-35", "3.8557e-26", "5.6052e-45", "7.2935e-22", 
    "6.0734e-19", "5.4888e-21", "2.3314e-27", "1.3146e-23", "1.6648e-28", "6.7262e-44", "0.0", "2.6777e-27", 
    "8.3791e-24", "3.999e-38", "4.8067e-34", "3.8866e-27", "1.217e-16", "3.6205e-16", "1.6484e-12", "6.7478e-14", 
    "4.0233e-10", "2.8685e-10", "2.0548e-11", "1.7605e-07", "3.9008e-06", "2.1276e-10", "1.9609e-07", 
    "4.0575e-05", "1.1566e-06", "4.4867e-07", "2.5356e-05", "0.00016763", "6.3129e-06", "0.0003917", 
    "0.00024724", "0.00045332", "0.00018623", "0.0026643", "0.00081152", "0.00011096", "0.002722", "0.0012581", 
    "0.0028948", "0.0010835", "0.0058858", "0.0064903", "0.0016273", "0.0014489", "0.0052276", "0.0023361", 
    "0.0045971", "0.0074379", "0.00035233", "0.00085429", "0.0013381", "0.0069628", "0.01028", "0.0042755", 
    "0.0078472", "0.0028906", "0.0068479", "0.0055551", "0.00063369", "0.0075031", "0.0060753", "0.0024986", 
    "0.0020242", "0.004209", "0.0010321", "0.00028947", "0.0063012", "0.0029113", "0.0017492", "0.0060221", 
    "0.0036224", "0.0017671", "0.0023805", "0.0006551", "0.004401", "0.00092155", "0.00084569", "0.0022677", 
    "0.0098197", "0.0030289", "0.0057614", "0.011446", "0.0033241", "0.0032517", "0.0066744", "0.0056366", 
    "0.009232", "0.014017", "0.012516", "0.0092302", "0.010621", "0.0080823", "0.0042388", "0.0026927", 
    "0.00043843", "0.00030973", "0.00013634", "0.00049752", "0.0016089", "0.00019875", "0.0003408", "0.007294", 
    "0.0037464", "0.00073409", "0.0026067", "0.0099378", "0.0012248", "0.0024465", "0.0012186", "0.0059265", 
    "0.0028644", "0.011128", "0.0087571", "0.0012234", "0.0017794", "0.0039416", "0.0039235", "1.6133e-05", 
    "5.9987e-05", "0.0035187", "0.0046616", "0.0090694", "0.0034602", "0.0035408", "0.0080277", "0.0036308", 
    "0.0052402", "0.0071907", "0.0039389", "0.008456", "0.0051115", "0.0074896", "0.0098552", "0.0095465", 
    "0.012509", "0.0044594", "0.0070802", "0.0072774", "0.013165", "0.010006", "0.0086892", "0.011553", 
    "0.0080348", "0.011318", "0.011153", "0.0083089", "0.01253", "0.0098179", "0.012264", "0.010943", "0.011224", 
    "0.012094", "0.010419", "0.012265", "0.011917", "0.011809", "0.011963", "0.011494", "0.012122", "0.011428", 
    "0.011127", "0.0094556", "0.009031", "0.0095432", "0.010538", "0.0090581", "0.010795", "0.010851", 
    "0.0083376", "0.0086444", "0.010187", "0.0091671", "0.0094523", "0.00967", "0.010262", "0.010359", 
    "0.0094787", "0.0094726", "0.011614", "0.010239", "0.009955", "0.010299", "0.01148", "0.010599", "0.010123", 
    "0.010978", "0.010914", "0.010253", "0.0079003", "0.0048286", "0.0083312", "0.009438", "0.0096922", 
    "0.010132", "0.010878", "0.01077", "0.009364", "0.0092254", "0.010376", "0.010698", "0.0092707", "0.0085837", 
    "0.0088494", "0.010331", "0.0092903", "0.0089918", "0.0088633", "0.0085502", "0.0091243", "0.0090521", 
    "0.0095746", "0.0088123", "0.0077564", "0.0088692", "0.0098592", "0.0093049", "0.0082451", "0.0077569", 
    "0.009655", "0.0095056", "0.0095925", "0.0076916", "0.0089756", "0.0087801", "0.0088274", "0.0085085", 
    "0.007994", "0.0080989", "0.0073604", "0.006762", "0.006534", "0.0067717", "0.0068818", "0.007476", 
    "0.0079254", "0.0079269", "0.0071353", "0.0069868", "0.0069466", "0.006852", "0.0070502", "0.0073541", 
    "0.0074027", "0.0075412", "0.0076277", "0.0077199", "0.0077482", "0.0078057", "0.0076806", "0.0075097", 
    "0.0073872", "0.0074327", "0.0073723", "0.00721", "0.0071043">>
RefDirect == <<
    "2.5361e-26", "1.0917e-24", "6.1253e-24", "2.7479e-22", "2.8346e-21", "1.3271e-20", "6.7646e-20", 
    "1.4614e-19", "4.9838e-18", "2.1624e-17", "8.9998e-17", "6.4424e-16", "2.3503e-15", "1.8458e-14", 
    "7.2547e-14", "3.6618e-13", "2.8061e-12", "9.0651e-12", "3.4978e-11", "1.5368e-10", "5.1454e-10", 
    "1.3303e-09", "3.8965e-09", "1.4425e-08", "4.0789e-08", "7.0414e-08", "1.576e-07", "4.7095e-07", 
    "9.4558e-07", "1.5965e-06", "3.2246e-06", "8.0206e-06", "1.4737e-05", "2.3312e-05", "3.3187e-05", 
    "6.7912e-05", "0.00011127", "0.0001427", "0.00020323", "0.00037386", "0.00045631", "0.00057207", 
    "0.00091926", "0.0013201", "0.001457", "0.002191", "0.0037332", "0.0048044", "0.0050973", "0.0064675", 
    "0.0089336", "0.010186", "0.01015", "0.011568", "0.015246", "0.019468", "0.020753", "0.02275", "0.022298", 
    "0.023672", "0.027826", "0.035879", "0.045392", "0.046156", "0.050898", "0.053766", "0.058323", "0.058999", 
    "0.065266", "0.070476", "0.073686", "0.064833", "0.067088", "0.081118", "0.09302", "0.099712", "0.095815", 
    "0.10005", "0.10971", "0.10693", "0.11277", "0.13305", "0.13414", "0.12817", "0.122", "0.1197", "0.11623", 
    "0.13393", "0.14852", "0.15467", "0.15504", "0.17936", "0.20868", "0.22162", "0.21834", "0.21285", "0.19773", 
    "0.20675", "0.23297", "0.25864", "0.26192", "0.24103", "0.22835", "0.23635", "0.24508", "0.24655", "0.24263", 
    "0.23265", "0.23823", "0.25434", "0.26477", "0.25894", "0.23813", "0.22099", "0.21767", "0.23434", "0.25321", 
    "0.26549", "0.27096", "0.27847", "0.29659", "0.29674", "0.27932", "0.27853", "0.29121", "0.30296", "0.30857", 
    "0.29246", "0.25352", "0.24439", "0.27854", "0.29761", "0.29132", "0.29747", "0.30318", "0.29351", "0.29306", 
    "0.29884", "0.28864", "0.2972", "0.32913", "0.35471", "0.34603", "0.33388", "0.32674", "0.30954", "0.32975", 
    "0.36351", "0.38523", "0.39043", "0.3914", "0.37878", "0.35627", "0.33495", "0.29527", "0.2995", "0.27936", 
    "0.25998", "0.3065", "0.37013", "0.3924", "0.37167", "0.34278", "0.33647", "0.3535", "0.38804", "0.40005", 
    "0.38994", "0.40472", "0.40179", "0.4181", "0.4611", "0.49508", "0.49694", "0.48869", "0.48041", "0.45319", 
    "0.45106", "0.47244", "0.50856", "0.51666", "0.46798", "0.47628", "0.49587", "0.46506", "0.44389", "0.42833", 
    "0.38682", "0.38651", "0.38435", "0.41087", "0.45514", "0.47218", "0.46538", "0.50014", "0.5589", "0.60314", 
    "0.58892", "0.52616", "0.47255", "0.49751", "0.53396", "0.54424", "0.49135", "0.41958", "0.36361", "0.32648", 
    "0.31658", "0.36689", "0.44239", "0.48638", "0.46549", "0.44984", "0.46848", "0.47343", "0.46731", "0.4635", 
    "0.46096", "0.50121", "0.55637", "0.58457", "0.59038", "0.62634", "0.63617", "0.58656", "0.48961", "0.35502", 
    "0.28272", "0.3678", "0.50811", "0.60096", "0.64101", "0.56443", "0.41101", "0.31882", "0.47151", "0.63944", 
    "0.75622", "0.80408", "0.8298", "0.83989", "0.87691", "0.91387", "0.88211", "0.89849", "0.87849", "0.85878", 
    "0.84545", "0.88488", "0.94717", "0.8091", "0.9077", "0.96686", "0.92951", "0.92134", "0.95569", "0.98628", 
    "0.96392", "0.92392", "0.96354", "0.88467", "1.0067", "0.99499", "0.96531", "0.96182", "0.99312", "0.96667", 
    "0.9355", "0.94625", "0.87766", "0.70134", "0.63779", "1.0628", "0.9905", "0.91653", "1.007", "1.1061", 
    "1.1306", "0.99368", "0.95753", "1.0993", "1.0859", "1.164", "1.1823", "1.1537", "1.1992", "1.0766", 
    "1.2257", "1.2422", "1.2409", "1.2881", "1.3376", "1.2822", "1.1854", "1.273", "1.2655", "1.3088", "1.3213", 
    "1.2946", "1.2859", "1.2791", "1.3255", "1.3392", "1.3452", "1.3055", "1.2905", "1.319", "1.2616", "1.3178", 
    "1.3247", "1.2749", "1.2975", "1.3661", "1.3144", "1.3304", "1.3755", "1.3299", "1.3392", "1.3839", "1.3586", 
    "1.3825", "1.3836", "1.3899", "1.3742", "1.3492", "1.3457", "1.0918", "1.2235", "1.3252", "1.2492", "1.3968", 
    "1.3435", "1.2818", "1.3719", "1.3402", "1.4238", "1.3548", "1.3788", "1.3421", "1.3429", "1.3391", "1.299", 
    "1.2991", "1.3597", "1.2682", "1.3598", "1.4153", "1.3548", "1.321", "1.385", "1.3497", "1.3753", "1.4125", 
    "1.3277", "1.3003", "1.3385", "1.3514", "1.1017", "1.2605", "1.2222", "1.3349", "1.3452", "1.376", "1.2976", 
    "1.3962", "1.3859", "1.3479", "1.1795", "1.3508", "1.4142", "1.3598", "1.4348", "1.4094", "1.259", "1.3491", 
    "1.3701", "1.4292", "1.3229", "1.3896", "1.3558", "1.3096", "1.2595", "1.3714", "1.3493", "1.3971", "1.3657", 
    "1.3536", "1.3717", "1.3331", "1.3752", "1.3648", "1.3639", "1.3923", "1.3533", "1.3802", "1.3883", "1.3651", 
    "1.3321", "1.3613", "1.2885", "1.3118", "1.3885", "1.3225", "1.3731", "1.3466", "1.3555", "1.2823", "1.3673", 
    "1.3554", "1.3228", "1.324", "1.281", "1.3534", "1.3595", "1.3527", "1.3225", "1.3118", "1.3452", "1.304", 
    "1.323", "1.3455", "1.3518", "1.3729", "1.3872", "1.3845", "1.3737", "1.3409", "1.3708", "1.3403", "1.1582", 
    "1.2316", "1.3171", "1.29", "1.3086", "1.3029", "1.287", "1.326", "1.3303", "1.3142", "1.3145", "1.3278", 
    "1.3123", "1.2928", "1.3205", "1.3439", "1.3418", "1.3353", "1.3434", "1.3392", "1.3292", "1.3237", "1.317", 
    "1.337", "1.3182", "1.2783", "1.3254", "1.2906", "1.2744", "1.3228", "1.3292", "1.3299", "1.3359", "1.2882", 
    "1.2793", "1.2751", "1.2667", "1.2655", "1.3022", "1.2328", "1.2758", "1.2589", "1.2799", "1.2327", "1.311", 
    "1.2907", "1.3065", "1.2768", "1.3204", "1.3292", "1.3238", "1.2962", "1.297", "1.2995", "1.313", "1.3074", 
    "1.317", "1.2797", "1.2744", "1.2625", "1.2234", "1.2299", "1.3071", "1.2558", "1.295", "1.2807", "1.222", 
    "1.0727", "1.1218", "1.254", "1.2586", "1.2668", "1.2618", "1.2518", "1.2539", "1.2647", "1.2871", "1.286", 
    "1.2767", "1.281", "1.3032", "1.2853", "1.2829", "1.2651", "1.276", "1.2742", "1.2639", "1.2786", "1.2669", 
    "1.2737", "1.2629", "1.265", "1.2601", "1.2662", "1.2526", "1.2445", "1.2454", "1.2174", "0.88285", "1.0195", 
    "1.026", "1.0746", "1.1201", "1.1516", "1.1446", "1.1318", "1.1538", "1.1513", "1.2151", "1.1961", "1.1721", 
    "1.1636", "1.1489", "1.15", "1.1567", "1.1864", "1.1989", "1.1925", "1.1875", "1.1839", "1.188", "1.1954", 
    "1.1934", "1.1856", "1.1719", "1.1823", "1.1428", "1.1548", "1.0081", "0.93873", "0.84274", "0.8994", 
    "0.98967", "1.1281", "1.0423", "0.96305", "0.94741", "0.98638", "0.98988", "0.94968", "0.95503", "1.0294", 
    "0.97702", "1.052", "1.0901", "1.1261", "1.1101", "1.0994", "1.0978", "1.1184", "1.0855", "1.1119", "1.1078", 
    "1.1084", "1.1316", "1.1408", "1.1404", "1.1381", "1.1389", "1.1323", "1.1286", "1.1273", "1.1224", "1.1265", 
    "1.121", "1.1353", "1.1321", "1.1185", "1.1176", "1.1246", "1.0932", "0.24716", "0.14328", "0.63491", 
    "0.35217", "0.49885", "0.63377", "0.7508", "0.89574", "1.0222", "1.0347", "1.0646", "1.0716", "1.0802", 
    "1.0797", "1.08", "1.0801", "1.0827", "1.0764", "1.0754", "1.0803", "1.0687", "1.0662", "1.0714", "1.0672", 
    "1.0602", "1.0649", "1.0656", "1.053", "1.0399", "1.0359", "1.0045", "1.0179", "1.0084", "1.0015", "1.0101", 
    "1.0066", "0.98985", "1.0057", "1.0245", "1.0048", "0.98859", "0.99978", "1.0011", "0.98288", "0.99452", 
    "0.9727", "1.0122", "1.0018", "0.99844", "0.97353", "0.97488", "0.97273", "0.94882", "0.93236", "0.83681", 
    "0.82927", "0.77171", "0.78984", "0.76299", "0.83844", "0.79899", "0.92292", "0.88081", "0.62576", "0.86619", 
    "0.89752", "0.8653", "0.91178", "0.7887", "0.86135", "0.8493", "0.85666", "0.82961", "0.88622", "0.86608", 
    "0.92917", "0.90135", "0.93493", "0.92585", "0.92783", "0.94124", "0.93626", "0.92411", "0.93171", "0.91434", 
    "0.94226", "0.94447", "0.91947", "0.9201", "0.91447", "0.829", "0.90454", "0.89942", "0.8954", "0.79", 
    "0.84746", "0.90343", "0.92059", "0.92094", "0.92081", "0.91764", "0.91648", "0.92367", "0.92934", "0.90956", 
    "0.89487", "0.78882", "0.85066", "0.8914", "0.88252", "0.89933", "0.88671", "0.89887", "0.88999", "0.87451", 
    "0.86204", "0.88625", "0.88948", "0.88607", "0.87144", "0.87434", "0.84563", "0.86787", "0.86494", "0.86859", 
    "0.87913", "0.84515", "0.84799", "0.85899", "0.87041", "0.86078", "0.86255", "0.84688", "0.81412", "0.79413", 
    "0.75956", "0.71265", "0.6231", "0.67137", "0.51461", "0.69429", "0.56162", "0.625", "0.64483", "0.78862", 
    "0.76337", "0.72502", "0.59833", "0.61091", "0.65912", "0.58553", "0.6258", "0.64508", "0.58906", "0.5874", 
    "0.6355", "0.54099", "0.6835", "0.55612", "0.69161", "0.69657", "0.73004", "0.65584", "0.69698", "0.67571", 
    "0.66621", "0.65875", "0.73684", "0.55363", "0.51792", "0.40679", "0.3854", "0.28386", "0.23459", "0.13604", 
    "0.2369", "0.15267", "0.15453", "0.18962", "0.37591", "0.44411", "0.35071", "0.38192", "0.26289", "0.26987", 
    "0.34729", "0.18409", "0.3501", "0.25911", "0.46514", "0.13944", "0.45563", "0.25418", "0.32442", "0.39988", 
    "0.32204", "0.30996", "0.25591", "0.43453", "0.35294", "0.39685", "0.43481", "0.41664", "0.47585", "0.43242", 
    "0.47469", "0.47377", "0.47353", "0.61301", "0.6448", "0.59689", "0.67059", "0.64629", "0.57081", "0.5417", 
    "0.55536", "0.53872", "0.60084", "0.57903", "0.60046", "0.56941", "0.67058", "0.65102", "0.62915", "0.6929", 
    "0.64734", "0.70553", "0.69489", "0.69059", "0.70391", "0.68843", "0.70833", "0.70597", "0.69325", "0.70891", 
    "0.70673", "0.70409", "0.69555", "0.69481", "0.69455", "0.69159", "0.70013", "0.68498", "0.69086", "0.68056", 
    "0.6414", "0.67047", "0.68463", "0.68407", "0.67742", "0.67695", "0.68034", "0.67667", "0.67556", "0.67848", 
    "0.66676", "0.66976", "0.66237", "0.67263", "0.6488", "0.65839", "0.66107", "0.6498", "0.6549", "0.65077", 
    "0.65727", "0.65625", "0.65318", "0.65398", "0.64687", "0.65092", "0.64799", "0.64852", "0.63751", "0.64136", 
    "0.64348", "0.64323", "0.63664", "0.63361", "0.63802", "0.63366", "0.63379", "0.63406", "0.62773", "0.63067", 
    "0.62712", "0.61078", "0.62008", "0.62559", "0.62206", "0.61802", "0.61862", "0.61487", "0.61302", "0.61048", 
    "0.61242", "0.61055", "0.6091", "0.60286", "0.58453", "0.60073", "0.58694", "0.59782", "0.58815", "0.59722", 
    "0.59461", "0.5833", "0.58637", "0.58561", "0.55428", "0.57178", "0.58304", "0.58194", "0.57086", "0.5878", 
    "0.56054", "0.58141", "0.57175", "0.57076", "0.5721", "0.56519", "0.54973", "0.55773", "0.56603", "0.54775", 
    "0.56163", "0.52496", "0.53685", "0.56159", "0.54856", "0.52656", "0.55722", "0.55048", "0.48417", "0.5112", 
    "0.49363", "0.47731", "0.54805", "0.47709", "0.48161", "0.46113", "0.47169", "0.44513", "0.44291", "0.44412", 
    "0.48065", "0.3784", "0.45866", "0.39517", "0.39249", "0.45496", "0.31572", "0.3933", "0.25599", "0.28576", 
    "0.23833", "0.19223", "0.076164", "0.20763", "0.10821", "0.13562", "0.17753", "0.078159", "0.12255", 
    "0.10397", "0.13794", "0.049394", "0.15032", "0.094946", "0.10133", "0.067568", "0.28201", "0.22359", 
    "0.14661", "0.039988", "0.014819", "0.1232", "0.27472", "0.19428", "0.28484", "0.24447", "0.18486", 
    "0.21481", "0.29758", "0.10843", "0.13976", "0.15085", "0.056715", "0.25898", "0.20894", "0.11648", 
    "0.19453", "0.23666", "0.22762", "0.13643", "0.29903", "0.26837", "0.3004", "0.2977", "0.32163", "0.27371", 
    "0.33167", "0.33412", "0.44644", "0.38332", "0.3708", "0.35781", "0.39105", "0.40018", "0.40348", "0.43731", 
    "0.4275", "0.4337", "0.43522", "0.32193", "0.43142", "0.45447", "0.4504", "0.34391", "0.46114", "0.42052", 
    "0.43423", "0.30903", "0.41853", "0.40083", "0.38908", "0.45518", "0.43494", "0.32039", "0.39685", "0.44124", 
    "0.42638", "0.45171", "0.4337", "0.44751", "0.42671", "0.41188", "0.45527", "0.41426", "0.34869", "0.42789", 
    "0.41735", "0.41743", "0.41441", "0.34645", "0.41714", "0.45872", "0.41044", "0.41379", "0.39548", "0.43267", 
    "0.40319", "0.40572", "0.44804", "0.41443", "0.40851", "0.44509", "0.43457", "0.43842", "0.42639", "0.43724", 
    "0.44413", "0.43096", "0.424", "0.42788", "0.44141", "0.44696", "0.4136", "0.44544", "0.44608", "0.43928", 
    "0.45067", "0.44525", "0.43359", "0.44893", "0.44409", "0.44795", "0.44259", "0.44694", "0.44194", "0.44011", 
    "0.4413", "0.44179", "0.43712", "0.43499", "0.43622", "0.43902", "0.43715", "0.43828", "0.4393", "0.43684", 
    "0.4326", "0.43106", "0.42803", "0.42416", "0.43088", "0.42096", "0.4163", "0.42549", "0.40868", "0.41235", 
    "0.39371", "0.37867", "0.383", "0.35568", "0.37871", "0.36881", "0.37159", "0.35475", "0.23656", "0.37087", 
    "0.39062", "0.39114", "0.38874", "0.38864", "0.39455", "0.39895", "0.40191", "0.40916", "0.40626", "0.40387", 
    "0.39554", "0.35695", "0.38978", "0.40268", "0.40577", "0.40878", "0.40405", "0.40192", "0.39194", "0.39522", 
    "0.40004", "0.37946", "0.39506", "0.38709", "0.38801", "0.37322", "0.35583", "0.37536", "0.39127", "0.33855", 
    "0.34728", "0.37539", "0.33197", "0.28849", "0.36783", "0.36853", "0.29362", "0.33277", "0.36822", "0.28908", 
    "0.32012", "0.31986", "0.30089", "0.2769", "0.27447", "0.31113", "0.29969", "0.31984", "0.25803", "0.24864", 
    "0.28684", "0.29023", "0.22386", "0.25231", "0.30943", "0.26956", "0.25593", "0.22555", "0.17097", "0.22052", 
    "0.13951", "0.14046", "0.19545", "0.16302", "0.22244", "0.1767", "0.15852", "0.17151", "0.17033", "0.16216", 
    "0.16419", "0.17149", "0.12259", "0.073018", "0.10521", "0.056189", "0.058058", "0.0045862", "0.015617", 
    "0.015488", "0.0044759", "0.0014661", "9.2918e-05", "0.00028051", "3.4847e-06", "4.6489e-05", "6.9429e-05", 
    "4.0575e-06", "7.104e-07", "2.0706e-06", "4.6566e-09", "1.7489e-11", "3.054e-06", "1.315e-06", "8.7833e-12", 
    "1.2379e-05", "4.8161e-06", "1.4311e-13", "5.0008e-07", "2.8266e-07", "1.9101e-08", "2.6623e-06", 
    "4.2991e-05", "0.0001735", "0.00031309", "0.00024935", "0.00011883", "0.0010741", "5.0533e-05", "7.9042e-05", 
    "2.2978e-06", "2.4874e-06", "4.2653e-08", "5.9782e-07", "2.0255e-06", "2.4441e-06", "0.00019288", 
    "3.9037e-06", "0.00056338", "0.00047836", "0.00033345", "2.3065e-05", "0.00011238", "7.3268e-05", 
    "6.5137e-07", "6.1338e-09", "4.7605e-05", "0.0012329", "0.00078835", "3.1513e-09", "1.0219e-08", "0.0017817", 
    "0.0023108", "0.00071755", "3.5395e-07", "0.0019861", "0.00016957", "0.0016023", "0.00060159", "0.00045332", 
    "0.0020544", "0.002565", "0.02269", "0.00035359", "0.00017854", "0.034561", "0.011431", "0.013182", 
    "0.0020851", "0.0080437", "0.0089117", "0.045023", "0.0089676", "0.016511", "0.025142", "0.027032", 
    "0.04818", "0.004436", "0.036985", "0.059912", "0.048792", "0.0024524", "0.03487", "0.020403", "0.020847", 
    "0.037326", "0.029085", "0.012913", "0.049672", "0.038547", "0.030959", "0.035356", "0.043868", "0.060143", 
    "0.048434", "0.022492", "0.035265", "0.11254", "0.099374", "0.026699", "0.01098", "0.060718", "0.079803", 
    "0.13384", "0.064409", "0.086158", "0.11386", "0.13273", "0.1586", "0.083161", "0.087886", "0.12708", 
    "0.042106", "0.1477", "0.090911", "0.063498", "0.035128", "0.074928", "0.092344", "0.048397", "0.017394", 
    "0.045566", "0.068368", "0.094765", "0.17954", "0.066987", "0.067916", "0.061825", "0.1168", "0.059063", 
    "0.11221", "0.056967", "0.14454", "0.13375", "0.12168", "0.12008", "0.059042", "0.091654", "0.18443", 
    "0.16993", "0.19222", "0.15986", "0.17651", "0.19794", "0.17745", "0.16385", "0.22198", "0.18437", "0.21141", 
    "0.24339", "0.25782", "0.22688", "0.17972", "0.15586", "0.17885", "0.25026", "0.24779", "0.23606", "0.18169", 
    "0.26269", "0.2571", "0.25315", "0.23544", "0.2193", "0.25804", "0.24943", "0.24214", "0.24489", "0.23739", 
    "0.25688", "0.26707", "0.25617", "0.27192", "0.26743", "0.2514", "0.25977", "0.25468", "0.27122", "0.2646", 
    "0.24789", "0.262", "0.27039", "0.26918", "0.26122", "0.25924", "0.26679", "0.26558", "0.26427", "0.26519", 
    "0.25737", "0.26141", "0.26165", "0.26439", "0.26443", "0.26922", "0.26705", "0.26537", "0.2592", "0.26568", 
    "0.26226", "0.26293", "0.26415", "0.26366", "0.25727", "0.26005", "0.25569", "0.26301", "0.26093", "0.26054", 
    "0.25821", "0.26242", "0.26003", "0.25917", "0.25525", "0.25975", "0.25506", "0.25566", "0.24997", "0.24736", 
    "0.23497", "0.2285", "0.23108", "0.2275", "0.23464", "0.23294", "0.2398", "0.20994", "0.22854", "0.23005", 
    "0.23772", "0.24165", "0.23508", "0.24051", "0.24194", "0.25135", "0.24838", "0.24579", "0.24388", "0.22567", 
    "0.23486", "0.23503", "0.24502", "0.25092", "0.2489", "0.25083", "0.23751", "0.23985", "0.24693", "0.23511", 
    "0.23133", "0.21691", "0.2178", "0.21765", "0.22197", "0.2301", "0.23453", "0.22637", "0.22343", "0.22088", 
    "0.21146", "0.22039", "0.22422", "0.23047", "0.23162", "0.2342", "0.22395", "0.22798", "0.2366", "0.23415", 
    "0.22783", "0.22765", "0.23081", "0.23559", "0.23582", "0.23109", "0.23294", "0.23398", "0.23446", "0.23456", 
    "0.22984", "0.23136", "0.23151", "0.22614", "0.22628", "0.22712", "0.22879", "0.22064", "0.21393", "0.2141", 
    "0.20913", "0.21348", "0.21467", "0.20939", "0.21733", "0.21216", "0.21147", "0.22135", "0.21057", "0.21261", 
    "0.21902", "0.20281", "0.21754", "0.21661", "0.20991", "0.21619", "0.21494", "0.21613", "0.2187", "0.21514", 
    "0.21721", "0.21774", "0.21313", "0.2163", "0.21498", "0.20607", "0.17411", "0.20502", "0.20881", "0.20939", 
    "0.21573", "0.21294", "0.20582", "0.21052", "0.21002", "0.20793", "0.20584", "0.20668", "0.20365", "0.20741", 
    "0.20017", "0.18936", "0.1983", "0.20357", "0.19283", "0.20763", "0.20476", "0.19951", "0.20465", "0.20178", 
    "0.19991", "0.18808", "0.20174", "0.20587", "0.1995", "0.20427", "0.20383", "0.17649", "0.20207", "0.20024", 
    "0.19464", "0.19874", "0.19275", "0.18316", "0.1849", "0.18231", "0.17367", "0.16979", "0.15758", "0.16405", 
    "0.15105", "0.16162", "0.14931", "0.15608", "0.12967", "0.13831", "0.11213", "0.098143", "0.075201", 
    "0.086831", "0.045864", "0.031112", "0.014485", "0.0094762", "0.0032093", "0.00096578", "0.0012463", 
    "5.0896e-06", "6.2784e-06", "6.1337e-08", "6.1298e-06", "2.9348e-06", "2.7795e-07", "1.092e-05", 
    "1.6644e-05", "2.6148e-10", "4.4296e-10", "7.6123e-05", "4.3129e-05", "0.00021956", "0.00012743", 
    "8.4916e-07", "5.5798e-07", "2.2726e-05", "1.9673e-05", "0.00044451", "0.00092326", "0.00054474", 
    "0.0035428", "0.0032357", "0.010707", "0.016482", "0.009886", "0.021569", "0.028114", "0.048055", "0.06673", 
    "0.074234", "0.081625", "0.084124", "0.079787", "0.037491", "0.014747", "0.039071", "0.026208", "0.044239", 
    "0.072779", "0.08346", "0.094808", "0.088344", "0.089636", "0.066892", "0.05409", "0.068157", "0.060962", 
    "0.064715", "0.076305", "0.085528", "0.083847", "0.087779", "0.088421", "0.084869", "0.091771", "0.08832", 
    "0.090308", "0.086281", "0.087303", "0.088422", "0.088679", "0.08939", "0.088132", "0.083369", "0.083566", 
    "0.082912", "0.075175", "0.080776", "0.079257", "0.080597", "0.073458", "0.077905", "0.077833", "0.070175", 
    "0.072947", "0.078174", "0.075189", "0.076631", "0.0744", "0.074727", "0.07329", "0.07214", "0.069911", 
    "0.071034", "0.066865", "0.066143", "0.067355", "0.064138", "0.063309", "0.065551", "0.062389", "0.062534", 
    "0.060603", "0.058193", "0.058544", "0.063189", "0.057528", "0.051489", "0.055626", "0.056231", "0.057362", 
    "0.045366", "0.050869", "0.041115", "0.046988", "0.049724", "0.048909", "0.030514", "0.043704", "0.042128", 
    "0.030525", "0.036748", "0.040199", "0.043726", "0.033286", "0.033504", "0.027058", "0.026358", "0.032802", 
    "0.044725", "0.014765", "0.042926", "0.020657", "0.013523", "0.024695", "0.033157", "0.024009", "0.016635", 
    "0.016368", "0.0079996", "0.005584", "0.0034957", "0.0028647", "0.0070328", "0.0015124", "0.0022063", 
    "0.00051644", "0.00036879", "4.1194e-05", "6.3279e-07", "1.7415e-07", "3.7521e-07", "5.3469e-11", 
    "2.8066e-13", "1.0377e-09", "3.0842e-11", "1.5846e-14", "1.5151e-18", "1.0708e-27", "3.7933e-22", 
    "1.7064e-34", "5.4369e-31", "2.2666e-33", "4.4556e-28", "5.7592e-35", "5.897e-34", "1.1106e-37", 
    "5.6056e-29", "3.8378e-28", "2.8026e-45", "3.8719e-16", "1.1657e-16", "8.9292e-19", "1.4186e-19", 
    "1.3036e-27", "2.588e-25", "1.1045e-37", "0.0", "0.0", "0.0", "0.0", "1.0178e-29", "7.1014e-33", "0.0", 
    "2.9273e-42", "1.1239e-35", "3.8549e-26", "5.6052e-45", "7.3094e-22", "6.0929e-19", "5.5121e-21", 
    "2.3435e-27", "1.3224e-23", "1.6758e-28", "6.7262e-44", "0.0", "2.7001e-27", "8.4528e-24", "4.036e-38", 
    "4.8532e-34", "3.9255e-27", "1.2295e-16", "3.6591e-16", "1.6665e-12", "6.8228e-14", "4.0695e-10", 
    "2.9018e-10", "2.0789e-11", "1.7814e-07", "3.9475e-06", "2.1533e-10", "1.9849e-07", "4.1074e-05", 
    "1.1708e-06", "4.5425e-07", "2.5672e-05", "0.00016974", "6.3922e-06", "0.00039663", "0.00025037", 
    "0.00045906", "0.0001886", "0.0026982", "0.00082183", "0.00011237", "0.0027566", "0.0012742", "0.0029316", 
    "0.0010973", "0.0059606", "0.0065725", "0.0016479", "0.0014673", "0.0052935", "0.0023655", "0.0046549", 
    "0.0075313", "0.00035676", "0.00086499", "0.0013548", "0.0070495", "0.010407", "0.0043286", "0.0079442", 
    "0.0029261", "0.006932", "0.0056232", "0.00064143", "0.0075948", "0.0061491", "0.002529", "0.0020487", 
    "0.0042599", "0.0010446", "0.00029295", "0.0063761", "0.0029458", "0.0017699", "0.0060928", "0.0036646", 
    "0.0017876", "0.002408", "0.00066266", "0.0044513", "0.00093203", "0.00085524", "0.0022932", "0.0099294", 
    "0.0030625", "0.0058246", "0.011571", "0.0033603", "0.0032869", "0.0067457", "0.0056965", "0.0093294", 
    "0.014163", "0.012645", "0.0093252", "0.01073", "0.0081644", "0.0042817", "0.0027197", "0.0004428", 
    "0.0003128", "0.00013768", "0.00050237", "0.0016245", "0.00020066", "0.00034404", "0.0073625", "0.0037816", 
    "0.00074096", "0.0026308", "0.010029", "0.001236", "0.0024686", "0.0012292", "0.0059758", "0.002889", 
    "0.011223", "0.008831", "0.0012337", "0.0017944", "0.0039746", "0.0039565", "1.6269e-05", "6.0496e-05", 
    "0.0035486", "0.0047014", "0.009147", "0.0034903", "0.0035722", "0.0080998", "0.0036642", "0.0052892", 
    "0.0072591", "0.003977", "0.0085388", "0.0051624", "0.007565", "0.0099552", "0.0096446", "0.012638", 
    "0.0045061", "0.0071547", "0.0073543", "0.013305", "0.010112", "0.008781", "0.011673", "0.0081181", 
    "0.011434", "0.011267", "0.0083938", "0.012657", "0.0099163", "0.012386", "0.011051", "0.011335", "0.012212", 
    "0.01052", "0.012383", "0.012032", "0.011923", "0.012077", "0.011598", "0.012226", "0.011523", "0.011217", 
    "0.0095305", "0.0091011", "0.0096154", "0.010616", "0.0091245", "0.010872", "0.010928", "0.0083951", 
    "0.0087028", "0.010255", "0.0092282", "0.0095145", "0.0097329", "0.010328", "0.010425", "0.0095385", 
    "0.0095318", "0.011686", "0.010302", "0.010016", "0.010362", "0.011549", "0.010663", "0.010183", "0.011042", 
    "0.010978", "0.010313", "0.0079464", "0.0048569", "0.0083789", "0.0094906", "0.0097458", "0.010188", 
    "0.010937", "0.010827", "0.009413", "0.0092731", "0.010429", "0.010751", "0.0093169", "0.008626", 
    "0.0088923", "0.01038", "0.0093341", "0.0090336", "0.0089041", "0.0085891", "0.0091649", "0.0090918", 
    "0.0096158", "0.0088498", "0.0077891", "0.0089056", "0.0098988", "0.0093414", "0.0082771", "0.0077867", 
    "0.0096908", "0.0095402", "0.0096268", "0.007719", "0.0090066", "0.0088097", "0.0088569", "0.0085365", 
    "0.0080197", "0.0081248", "0.0073839", "0.0067832", "0.0065543", "0.0067926", "0.0069028", "0.0074983", 
    "0.0079487", "0.00795", "0.007156", "0.007007", "0.0069665", "0.0068714", "0.0070699", "0.0073743", 
    "0.0074228", "0.0075613", "0.0076475", "0.0077399", "0.0077679", "0.0078253", "0.0076997", "0.007528", 
    "0.0074049", "0.0074503", "0.0073894", "0.0072263", "0.0071199">>
==============================================================================
