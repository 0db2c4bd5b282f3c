package h

// Written by tools/genbig.py.

const bigN = 300

type BigQ struct {
	F000 string
	F001 string
	F002 string
	F003 string
	F004 string
	F005 string
	F006 string
	F007 string
	F008 string
	F009 string
	F010 string
	F011 string
	F012 string
	F013 string
	F014 string
	F015 string
	F016 string
	F017 string
	F018 string
	F019 string
	F020 string
	F021 string
	F022 string
	F023 string
	F024 string
	F025 string
	F026 string
	F027 string
	F028 string
	F029 string
	F030 string
	F031 string
	F032 string
	F033 string
	F034 string
	F035 string
	F036 string
	F037 string
	F038 string
	F039 string
	F040 string
	F041 string
	F042 string
	F043 string
	F044 string
	F045 string
	F046 string
	F047 string
	F048 string
	F049 string
	F050 string
	F051 string
	F052 string
	F053 string
	F054 string
	F055 string
	F056 string
	F057 string
	F058 string
	F059 string
	F060 string
	F061 string
	F062 string
	F063 string
	F064 string
	F065 string
	F066 string
	F067 string
	F068 string
	F069 string
	F070 string
	F071 string
	F072 string
	F073 string
	F074 string
	F075 string
	F076 string
	F077 string
	F078 string
	F079 string
	F080 string
	F081 string
	F082 string
	F083 string
	F084 string
	F085 string
	F086 string
	F087 string
	F088 string
	F089 string
	F090 string
	F091 string
	F092 string
	F093 string
	F094 string
	F095 string
	F096 string
	F097 string
	F098 string
	F099 string
	F100 string
	F101 string
	F102 string
	F103 string
	F104 string
	F105 string
	F106 string
	F107 string
	F108 string
	F109 string
	F110 string
	F111 string
	F112 string
	F113 string
	F114 string
	F115 string
	F116 string
	F117 string
	F118 string
	F119 string
	F120 string
	F121 string
	F122 string
	F123 string
	F124 string
	F125 string
	F126 string
	F127 string
	F128 string
	F129 string
	F130 string
	F131 string
	F132 string
	F133 string
	F134 string
	F135 string
	F136 string
	F137 string
	F138 string
	F139 string
	F140 string
	F141 string
	F142 string
	F143 string
	F144 string
	F145 string
	F146 string
	F147 string
	F148 string
	F149 string
	F150 string
	F151 string
	F152 string
	F153 string
	F154 string
	F155 string
	F156 string
	F157 string
	F158 string
	F159 string
	F160 string
	F161 string
	F162 string
	F163 string
	F164 string
	F165 string
	F166 string
	F167 string
	F168 string
	F169 string
	F170 string
	F171 string
	F172 string
	F173 string
	F174 string
	F175 string
	F176 string
	F177 string
	F178 string
	F179 string
	F180 string
	F181 string
	F182 string
	F183 string
	F184 string
	F185 string
	F186 string
	F187 string
	F188 string
	F189 string
	F190 string
	F191 string
	F192 string
	F193 string
	F194 string
	F195 string
	F196 string
	F197 string
	F198 string
	F199 string
	F200 string
	F201 string
	F202 string
	F203 string
	F204 string
	F205 string
	F206 string
	F207 string
	F208 string
	F209 string
	F210 string
	F211 string
	F212 string
	F213 string
	F214 string
	F215 string
	F216 string
	F217 string
	F218 string
	F219 string
	F220 string
	F221 string
	F222 string
	F223 string
	F224 string
	F225 string
	F226 string
	F227 string
	F228 string
	F229 string
	F230 string
	F231 string
	F232 string
	F233 string
	F234 string
	F235 string
	F236 string
	F237 string
	F238 string
	F239 string
	F240 string
	F241 string
	F242 string
	F243 string
	F244 string
	F245 string
	F246 string
	F247 string
	F248 string
	F249 string
	F250 string
	F251 string
	F252 string
	F253 string
	F254 string
	F255 string
	F256 string
	F257 string
	F258 string
	F259 string
	F260 string
	F261 string
	F262 string
	F263 string
	F264 string
	F265 string
	F266 string
	F267 string
	F268 string
	F269 string
	F270 string
	F271 string
	F272 string
	F273 string
	F274 string
	F275 string
	F276 string
	F277 string
	F278 string
	F279 string
	F280 string
	F281 string
	F282 string
	F283 string
	F284 string
	F285 string
	F286 string
	F287 string
	F288 string
	F289 string
	F290 string
	F291 string
	F292 string
	F293 string
	F294 string
	F295 string
	F296 string
	F297 string
	F298 string
	F299 string
}

func newBigQ() BigQ {
	return BigQ{
		F000: "v0",
		F001: "v1",
		F002: "v2",
		F003: "v3",
		F004: "v4",
		F005: "v5",
		F006: "v6",
		F007: "v7",
		F008: "v8",
		F009: "v9",
		F010: "v10",
		F011: "v11",
		F012: "v12",
		F013: "v13",
		F014: "v14",
		F015: "v15",
		F016: "v16",
		F017: "v17",
		F018: "v18",
		F019: "v19",
		F020: "v20",
		F021: "v21",
		F022: "v22",
		F023: "v23",
		F024: "v24",
		F025: "v25",
		F026: "v26",
		F027: "v27",
		F028: "v28",
		F029: "v29",
		F030: "v30",
		F031: "v31",
		F032: "v32",
		F033: "v33",
		F034: "v34",
		F035: "v35",
		F036: "v36",
		F037: "v37",
		F038: "v38",
		F039: "v39",
		F040: "v40",
		F041: "v41",
		F042: "v42",
		F043: "v43",
		F044: "v44",
		F045: "v45",
		F046: "v46",
		F047: "v47",
		F048: "v48",
		F049: "v49",
		F050: "v50",
		F051: "v51",
		F052: "v52",
		F053: "v53",
		F054: "v54",
		F055: "v55",
		F056: "v56",
		F057: "v57",
		F058: "v58",
		F059: "v59",
		F060: "v60",
		F061: "v61",
		F062: "v62",
		F063: "v63",
		F064: "v64",
		F065: "v65",
		F066: "v66",
		F067: "v67",
		F068: "v68",
		F069: "v69",
		F070: "v70",
		F071: "v71",
		F072: "v72",
		F073: "v73",
		F074: "v74",
		F075: "v75",
		F076: "v76",
		F077: "v77",
		F078: "v78",
		F079: "v79",
		F080: "v80",
		F081: "v81",
		F082: "v82",
		F083: "v83",
		F084: "v84",
		F085: "v85",
		F086: "v86",
		F087: "v87",
		F088: "v88",
		F089: "v89",
		F090: "v90",
		F091: "v91",
		F092: "v92",
		F093: "v93",
		F094: "v94",
		F095: "v95",
		F096: "v96",
		F097: "v97",
		F098: "v98",
		F099: "v99",
		F100: "v100",
		F101: "v101",
		F102: "v102",
		F103: "v103",
		F104: "v104",
		F105: "v105",
		F106: "v106",
		F107: "v107",
		F108: "v108",
		F109: "v109",
		F110: "v110",
		F111: "v111",
		F112: "v112",
		F113: "v113",
		F114: "v114",
		F115: "v115",
		F116: "v116",
		F117: "v117",
		F118: "v118",
		F119: "v119",
		F120: "v120",
		F121: "v121",
		F122: "v122",
		F123: "v123",
		F124: "v124",
		F125: "v125",
		F126: "v126",
		F127: "v127",
		F128: "v128",
		F129: "v129",
		F130: "v130",
		F131: "v131",
		F132: "v132",
		F133: "v133",
		F134: "v134",
		F135: "v135",
		F136: "v136",
		F137: "v137",
		F138: "v138",
		F139: "v139",
		F140: "v140",
		F141: "v141",
		F142: "v142",
		F143: "v143",
		F144: "v144",
		F145: "v145",
		F146: "v146",
		F147: "v147",
		F148: "v148",
		F149: "v149",
		F150: "v150",
		F151: "v151",
		F152: "v152",
		F153: "v153",
		F154: "v154",
		F155: "v155",
		F156: "v156",
		F157: "v157",
		F158: "v158",
		F159: "v159",
		F160: "v160",
		F161: "v161",
		F162: "v162",
		F163: "v163",
		F164: "v164",
		F165: "v165",
		F166: "v166",
		F167: "v167",
		F168: "v168",
		F169: "v169",
		F170: "v170",
		F171: "v171",
		F172: "v172",
		F173: "v173",
		F174: "v174",
		F175: "v175",
		F176: "v176",
		F177: "v177",
		F178: "v178",
		F179: "v179",
		F180: "v180",
		F181: "v181",
		F182: "v182",
		F183: "v183",
		F184: "v184",
		F185: "v185",
		F186: "v186",
		F187: "v187",
		F188: "v188",
		F189: "v189",
		F190: "v190",
		F191: "v191",
		F192: "v192",
		F193: "v193",
		F194: "v194",
		F195: "v195",
		F196: "v196",
		F197: "v197",
		F198: "v198",
		F199: "v199",
		F200: "v200",
		F201: "v201",
		F202: "v202",
		F203: "v203",
		F204: "v204",
		F205: "v205",
		F206: "v206",
		F207: "v207",
		F208: "v208",
		F209: "v209",
		F210: "v210",
		F211: "v211",
		F212: "v212",
		F213: "v213",
		F214: "v214",
		F215: "v215",
		F216: "v216",
		F217: "v217",
		F218: "v218",
		F219: "v219",
		F220: "v220",
		F221: "v221",
		F222: "v222",
		F223: "v223",
		F224: "v224",
		F225: "v225",
		F226: "v226",
		F227: "v227",
		F228: "v228",
		F229: "v229",
		F230: "v230",
		F231: "v231",
		F232: "v232",
		F233: "v233",
		F234: "v234",
		F235: "v235",
		F236: "v236",
		F237: "v237",
		F238: "v238",
		F239: "v239",
		F240: "v240",
		F241: "v241",
		F242: "v242",
		F243: "v243",
		F244: "v244",
		F245: "v245",
		F246: "v246",
		F247: "v247",
		F248: "v248",
		F249: "v249",
		F250: "v250",
		F251: "v251",
		F252: "v252",
		F253: "v253",
		F254: "v254",
		F255: "v255",
		F256: "v256",
		F257: "v257",
		F258: "v258",
		F259: "v259",
		F260: "v260",
		F261: "v261",
		F262: "v262",
		F263: "v263",
		F264: "v264",
		F265: "v265",
		F266: "v266",
		F267: "v267",
		F268: "v268",
		F269: "v269",
		F270: "v270",
		F271: "v271",
		F272: "v272",
		F273: "v273",
		F274: "v274",
		F275: "v275",
		F276: "v276",
		F277: "v277",
		F278: "v278",
		F279: "v279",
		F280: "v280",
		F281: "v281",
		F282: "v282",
		F283: "v283",
		F284: "v284",
		F285: "v285",
		F286: "v286",
		F287: "v287",
		F288: "v288",
		F289: "v289",
		F290: "v290",
		F291: "v291",
		F292: "v292",
		F293: "v293",
		F294: "v294",
		F295: "v295",
		F296: "v296",
		F297: "v297",
		F298: "v298",
		F299: "v299",
	}
}

type BigIn struct {
	Next *BigIn
	F000 *int
	F001 *int
	F002 *int
	F003 *int
	F004 *int
	F005 *int
	F006 *int
	F007 *int
	F008 *int
	F009 *int
	F010 *int
	F011 *int
	F012 *int
	F013 *int
	F014 *int
	F015 *int
	F016 *int
	F017 *int
	F018 *int
	F019 *int
	F020 *int
	F021 *int
	F022 *int
	F023 *int
	F024 *int
	F025 *int
	F026 *int
	F027 *int
	F028 *int
	F029 *int
	F030 *int
	F031 *int
	F032 *int
	F033 *int
	F034 *int
	F035 *int
	F036 *int
	F037 *int
	F038 *int
	F039 *int
	F040 *int
	F041 *int
	F042 *int
	F043 *int
	F044 *int
	F045 *int
	F046 *int
	F047 *int
	F048 *int
	F049 *int
	F050 *int
	F051 *int
	F052 *int
	F053 *int
	F054 *int
	F055 *int
	F056 *int
	F057 *int
	F058 *int
	F059 *int
	F060 *int
	F061 *int
	F062 *int
	F063 *int
	F064 *int
	F065 *int
	F066 *int
	F067 *int
	F068 *int
	F069 *int
	F070 *int
	F071 *int
	F072 *int
	F073 *int
	F074 *int
	F075 *int
	F076 *int
	F077 *int
	F078 *int
	F079 *int
	F080 *int
	F081 *int
	F082 *int
	F083 *int
	F084 *int
	F085 *int
	F086 *int
	F087 *int
	F088 *int
	F089 *int
	F090 *int
	F091 *int
	F092 *int
	F093 *int
	F094 *int
	F095 *int
	F096 *int
	F097 *int
	F098 *int
	F099 *int
	F100 *int
	F101 *int
	F102 *int
	F103 *int
	F104 *int
	F105 *int
	F106 *int
	F107 *int
	F108 *int
	F109 *int
	F110 *int
	F111 *int
	F112 *int
	F113 *int
	F114 *int
	F115 *int
	F116 *int
	F117 *int
	F118 *int
	F119 *int
	F120 *int
	F121 *int
	F122 *int
	F123 *int
	F124 *int
	F125 *int
	F126 *int
	F127 *int
	F128 *int
	F129 *int
	F130 *int
	F131 *int
	F132 *int
	F133 *int
	F134 *int
	F135 *int
	F136 *int
	F137 *int
	F138 *int
	F139 *int
	F140 *int
	F141 *int
	F142 *int
	F143 *int
	F144 *int
	F145 *int
	F146 *int
	F147 *int
	F148 *int
	F149 *int
	F150 *int
	F151 *int
	F152 *int
	F153 *int
	F154 *int
	F155 *int
	F156 *int
	F157 *int
	F158 *int
	F159 *int
	F160 *int
	F161 *int
	F162 *int
	F163 *int
	F164 *int
	F165 *int
	F166 *int
	F167 *int
	F168 *int
	F169 *int
	F170 *int
	F171 *int
	F172 *int
	F173 *int
	F174 *int
	F175 *int
	F176 *int
	F177 *int
	F178 *int
	F179 *int
	F180 *int
	F181 *int
	F182 *int
	F183 *int
	F184 *int
	F185 *int
	F186 *int
	F187 *int
	F188 *int
	F189 *int
	F190 *int
	F191 *int
	F192 *int
	F193 *int
	F194 *int
	F195 *int
	F196 *int
	F197 *int
	F198 *int
	F199 *int
	F200 *int
	F201 *int
	F202 *int
	F203 *int
	F204 *int
	F205 *int
	F206 *int
	F207 *int
	F208 *int
	F209 *int
	F210 *int
	F211 *int
	F212 *int
	F213 *int
	F214 *int
	F215 *int
	F216 *int
	F217 *int
	F218 *int
	F219 *int
	F220 *int
	F221 *int
	F222 *int
	F223 *int
	F224 *int
	F225 *int
	F226 *int
	F227 *int
	F228 *int
	F229 *int
	F230 *int
	F231 *int
	F232 *int
	F233 *int
	F234 *int
	F235 *int
	F236 *int
	F237 *int
	F238 *int
	F239 *int
	F240 *int
	F241 *int
	F242 *int
	F243 *int
	F244 *int
	F245 *int
	F246 *int
	F247 *int
	F248 *int
	F249 *int
	F250 *int
	F251 *int
	F252 *int
	F253 *int
	F254 *int
	F255 *int
	F256 *int
	F257 *int
	F258 *int
	F259 *int
	F260 *int
	F261 *int
	F262 *int
	F263 *int
	F264 *int
	F265 *int
	F266 *int
	F267 *int
	F268 *int
	F269 *int
	F270 *int
	F271 *int
	F272 *int
	F273 *int
	F274 *int
	F275 *int
	F276 *int
	F277 *int
	F278 *int
	F279 *int
	F280 *int
	F281 *int
	F282 *int
	F283 *int
	F284 *int
	F285 *int
	F286 *int
	F287 *int
	F288 *int
	F289 *int
	F290 *int
	F291 *int
	F292 *int
	F293 *int
	F294 *int
	F295 *int
	F296 *int
	F297 *int
	F298 *int
	F299 *int
}

func (b *BigIn) get(i int) *int {
	switch i {
	case 0:
		return b.F000
	case 1:
		return b.F001
	case 2:
		return b.F002
	case 3:
		return b.F003
	case 4:
		return b.F004
	case 5:
		return b.F005
	case 6:
		return b.F006
	case 7:
		return b.F007
	case 8:
		return b.F008
	case 9:
		return b.F009
	case 10:
		return b.F010
	case 11:
		return b.F011
	case 12:
		return b.F012
	case 13:
		return b.F013
	case 14:
		return b.F014
	case 15:
		return b.F015
	case 16:
		return b.F016
	case 17:
		return b.F017
	case 18:
		return b.F018
	case 19:
		return b.F019
	case 20:
		return b.F020
	case 21:
		return b.F021
	case 22:
		return b.F022
	case 23:
		return b.F023
	case 24:
		return b.F024
	case 25:
		return b.F025
	case 26:
		return b.F026
	case 27:
		return b.F027
	case 28:
		return b.F028
	case 29:
		return b.F029
	case 30:
		return b.F030
	case 31:
		return b.F031
	case 32:
		return b.F032
	case 33:
		return b.F033
	case 34:
		return b.F034
	case 35:
		return b.F035
	case 36:
		return b.F036
	case 37:
		return b.F037
	case 38:
		return b.F038
	case 39:
		return b.F039
	case 40:
		return b.F040
	case 41:
		return b.F041
	case 42:
		return b.F042
	case 43:
		return b.F043
	case 44:
		return b.F044
	case 45:
		return b.F045
	case 46:
		return b.F046
	case 47:
		return b.F047
	case 48:
		return b.F048
	case 49:
		return b.F049
	case 50:
		return b.F050
	case 51:
		return b.F051
	case 52:
		return b.F052
	case 53:
		return b.F053
	case 54:
		return b.F054
	case 55:
		return b.F055
	case 56:
		return b.F056
	case 57:
		return b.F057
	case 58:
		return b.F058
	case 59:
		return b.F059
	case 60:
		return b.F060
	case 61:
		return b.F061
	case 62:
		return b.F062
	case 63:
		return b.F063
	case 64:
		return b.F064
	case 65:
		return b.F065
	case 66:
		return b.F066
	case 67:
		return b.F067
	case 68:
		return b.F068
	case 69:
		return b.F069
	case 70:
		return b.F070
	case 71:
		return b.F071
	case 72:
		return b.F072
	case 73:
		return b.F073
	case 74:
		return b.F074
	case 75:
		return b.F075
	case 76:
		return b.F076
	case 77:
		return b.F077
	case 78:
		return b.F078
	case 79:
		return b.F079
	case 80:
		return b.F080
	case 81:
		return b.F081
	case 82:
		return b.F082
	case 83:
		return b.F083
	case 84:
		return b.F084
	case 85:
		return b.F085
	case 86:
		return b.F086
	case 87:
		return b.F087
	case 88:
		return b.F088
	case 89:
		return b.F089
	case 90:
		return b.F090
	case 91:
		return b.F091
	case 92:
		return b.F092
	case 93:
		return b.F093
	case 94:
		return b.F094
	case 95:
		return b.F095
	case 96:
		return b.F096
	case 97:
		return b.F097
	case 98:
		return b.F098
	case 99:
		return b.F099
	case 100:
		return b.F100
	case 101:
		return b.F101
	case 102:
		return b.F102
	case 103:
		return b.F103
	case 104:
		return b.F104
	case 105:
		return b.F105
	case 106:
		return b.F106
	case 107:
		return b.F107
	case 108:
		return b.F108
	case 109:
		return b.F109
	case 110:
		return b.F110
	case 111:
		return b.F111
	case 112:
		return b.F112
	case 113:
		return b.F113
	case 114:
		return b.F114
	case 115:
		return b.F115
	case 116:
		return b.F116
	case 117:
		return b.F117
	case 118:
		return b.F118
	case 119:
		return b.F119
	case 120:
		return b.F120
	case 121:
		return b.F121
	case 122:
		return b.F122
	case 123:
		return b.F123
	case 124:
		return b.F124
	case 125:
		return b.F125
	case 126:
		return b.F126
	case 127:
		return b.F127
	case 128:
		return b.F128
	case 129:
		return b.F129
	case 130:
		return b.F130
	case 131:
		return b.F131
	case 132:
		return b.F132
	case 133:
		return b.F133
	case 134:
		return b.F134
	case 135:
		return b.F135
	case 136:
		return b.F136
	case 137:
		return b.F137
	case 138:
		return b.F138
	case 139:
		return b.F139
	case 140:
		return b.F140
	case 141:
		return b.F141
	case 142:
		return b.F142
	case 143:
		return b.F143
	case 144:
		return b.F144
	case 145:
		return b.F145
	case 146:
		return b.F146
	case 147:
		return b.F147
	case 148:
		return b.F148
	case 149:
		return b.F149
	case 150:
		return b.F150
	case 151:
		return b.F151
	case 152:
		return b.F152
	case 153:
		return b.F153
	case 154:
		return b.F154
	case 155:
		return b.F155
	case 156:
		return b.F156
	case 157:
		return b.F157
	case 158:
		return b.F158
	case 159:
		return b.F159
	case 160:
		return b.F160
	case 161:
		return b.F161
	case 162:
		return b.F162
	case 163:
		return b.F163
	case 164:
		return b.F164
	case 165:
		return b.F165
	case 166:
		return b.F166
	case 167:
		return b.F167
	case 168:
		return b.F168
	case 169:
		return b.F169
	case 170:
		return b.F170
	case 171:
		return b.F171
	case 172:
		return b.F172
	case 173:
		return b.F173
	case 174:
		return b.F174
	case 175:
		return b.F175
	case 176:
		return b.F176
	case 177:
		return b.F177
	case 178:
		return b.F178
	case 179:
		return b.F179
	case 180:
		return b.F180
	case 181:
		return b.F181
	case 182:
		return b.F182
	case 183:
		return b.F183
	case 184:
		return b.F184
	case 185:
		return b.F185
	case 186:
		return b.F186
	case 187:
		return b.F187
	case 188:
		return b.F188
	case 189:
		return b.F189
	case 190:
		return b.F190
	case 191:
		return b.F191
	case 192:
		return b.F192
	case 193:
		return b.F193
	case 194:
		return b.F194
	case 195:
		return b.F195
	case 196:
		return b.F196
	case 197:
		return b.F197
	case 198:
		return b.F198
	case 199:
		return b.F199
	case 200:
		return b.F200
	case 201:
		return b.F201
	case 202:
		return b.F202
	case 203:
		return b.F203
	case 204:
		return b.F204
	case 205:
		return b.F205
	case 206:
		return b.F206
	case 207:
		return b.F207
	case 208:
		return b.F208
	case 209:
		return b.F209
	case 210:
		return b.F210
	case 211:
		return b.F211
	case 212:
		return b.F212
	case 213:
		return b.F213
	case 214:
		return b.F214
	case 215:
		return b.F215
	case 216:
		return b.F216
	case 217:
		return b.F217
	case 218:
		return b.F218
	case 219:
		return b.F219
	case 220:
		return b.F220
	case 221:
		return b.F221
	case 222:
		return b.F222
	case 223:
		return b.F223
	case 224:
		return b.F224
	case 225:
		return b.F225
	case 226:
		return b.F226
	case 227:
		return b.F227
	case 228:
		return b.F228
	case 229:
		return b.F229
	case 230:
		return b.F230
	case 231:
		return b.F231
	case 232:
		return b.F232
	case 233:
		return b.F233
	case 234:
		return b.F234
	case 235:
		return b.F235
	case 236:
		return b.F236
	case 237:
		return b.F237
	case 238:
		return b.F238
	case 239:
		return b.F239
	case 240:
		return b.F240
	case 241:
		return b.F241
	case 242:
		return b.F242
	case 243:
		return b.F243
	case 244:
		return b.F244
	case 245:
		return b.F245
	case 246:
		return b.F246
	case 247:
		return b.F247
	case 248:
		return b.F248
	case 249:
		return b.F249
	case 250:
		return b.F250
	case 251:
		return b.F251
	case 252:
		return b.F252
	case 253:
		return b.F253
	case 254:
		return b.F254
	case 255:
		return b.F255
	case 256:
		return b.F256
	case 257:
		return b.F257
	case 258:
		return b.F258
	case 259:
		return b.F259
	case 260:
		return b.F260
	case 261:
		return b.F261
	case 262:
		return b.F262
	case 263:
		return b.F263
	case 264:
		return b.F264
	case 265:
		return b.F265
	case 266:
		return b.F266
	case 267:
		return b.F267
	case 268:
		return b.F268
	case 269:
		return b.F269
	case 270:
		return b.F270
	case 271:
		return b.F271
	case 272:
		return b.F272
	case 273:
		return b.F273
	case 274:
		return b.F274
	case 275:
		return b.F275
	case 276:
		return b.F276
	case 277:
		return b.F277
	case 278:
		return b.F278
	case 279:
		return b.F279
	case 280:
		return b.F280
	case 281:
		return b.F281
	case 282:
		return b.F282
	case 283:
		return b.F283
	case 284:
		return b.F284
	case 285:
		return b.F285
	case 286:
		return b.F286
	case 287:
		return b.F287
	case 288:
		return b.F288
	case 289:
		return b.F289
	case 290:
		return b.F290
	case 291:
		return b.F291
	case 292:
		return b.F292
	case 293:
		return b.F293
	case 294:
		return b.F294
	case 295:
		return b.F295
	case 296:
		return b.F296
	case 297:
		return b.F297
	case 298:
		return b.F298
	case 299:
		return b.F299
	}
	return nil
}

type BigI interface{ ResolveName() int }

type BigImpl0 struct{ A0 int }

func (b BigImpl0) ResolveName() int { return b.A0 }

type BigImpl1 struct{ A1 int }

func (b BigImpl1) ResolveName() int { return b.A1 }

type BigImpl2 struct{ A2 int }

func (b BigImpl2) ResolveName() int { return b.A2 }

type BigImpl3 struct{ A3 int }

func (b BigImpl3) ResolveName() int { return b.A3 }

type BigImpl4 struct{ A4 int }

func (b BigImpl4) ResolveName() int { return b.A4 }

type BigImpl5 struct{ A5 int }

func (b BigImpl5) ResolveName() int { return b.A5 }

type BigImpl6 struct{ A6 int }

func (b BigImpl6) ResolveName() int { return b.A6 }

type BigImpl7 struct{ A7 int }

func (b BigImpl7) ResolveName() int { return b.A7 }

type BigImpl8 struct{ A8 int }

func (b BigImpl8) ResolveName() int { return b.A8 }

type BigImpl9 struct{ A9 int }

func (b BigImpl9) ResolveName() int { return b.A9 }

type BigImpl10 struct{ A10 int }

func (b BigImpl10) ResolveName() int { return b.A10 }

type BigImpl11 struct{ A11 int }

func (b BigImpl11) ResolveName() int { return b.A11 }

type BigImpl12 struct{ A12 int }

func (b BigImpl12) ResolveName() int { return b.A12 }

type BigImpl13 struct{ A13 int }

func (b BigImpl13) ResolveName() int { return b.A13 }

type BigImpl14 struct{ A14 int }

func (b BigImpl14) ResolveName() int { return b.A14 }

type BigImpl15 struct{ A15 int }

func (b BigImpl15) ResolveName() int { return b.A15 }

type BigImpl16 struct{ A16 int }

func (b BigImpl16) ResolveName() int { return b.A16 }

type BigImpl17 struct{ A17 int }

func (b BigImpl17) ResolveName() int { return b.A17 }

type BigImpl18 struct{ A18 int }

func (b BigImpl18) ResolveName() int { return b.A18 }

type BigImpl19 struct{ A19 int }

func (b BigImpl19) ResolveName() int { return b.A19 }

type BigImpl20 struct{ A20 int }

func (b BigImpl20) ResolveName() int { return b.A20 }

type BigImpl21 struct{ A21 int }

func (b BigImpl21) ResolveName() int { return b.A21 }

type BigImpl22 struct{ A22 int }

func (b BigImpl22) ResolveName() int { return b.A22 }

type BigImpl23 struct{ A23 int }

func (b BigImpl23) ResolveName() int { return b.A23 }

type BigImpl24 struct{ A24 int }

func (b BigImpl24) ResolveName() int { return b.A24 }

type BigImpl25 struct{ A25 int }

func (b BigImpl25) ResolveName() int { return b.A25 }

type BigImpl26 struct{ A26 int }

func (b BigImpl26) ResolveName() int { return b.A26 }

type BigImpl27 struct{ A27 int }

func (b BigImpl27) ResolveName() int { return b.A27 }

type BigImpl28 struct{ A28 int }

func (b BigImpl28) ResolveName() int { return b.A28 }

type BigImpl29 struct{ A29 int }

func (b BigImpl29) ResolveName() int { return b.A29 }

type BigImpl30 struct{ A30 int }

func (b BigImpl30) ResolveName() int { return b.A30 }

type BigImpl31 struct{ A31 int }

func (b BigImpl31) ResolveName() int { return b.A31 }

type BigImpl32 struct{ A32 int }

func (b BigImpl32) ResolveName() int { return b.A32 }

type BigImpl33 struct{ A33 int }

func (b BigImpl33) ResolveName() int { return b.A33 }

type BigImpl34 struct{ A34 int }

func (b BigImpl34) ResolveName() int { return b.A34 }

type BigImpl35 struct{ A35 int }

func (b BigImpl35) ResolveName() int { return b.A35 }

type BigImpl36 struct{ A36 int }

func (b BigImpl36) ResolveName() int { return b.A36 }

type BigImpl37 struct{ A37 int }

func (b BigImpl37) ResolveName() int { return b.A37 }

type BigImpl38 struct{ A38 int }

func (b BigImpl38) ResolveName() int { return b.A38 }

type BigImpl39 struct{ A39 int }

func (b BigImpl39) ResolveName() int { return b.A39 }

func bigImpl(i int) BigI {
	switch i {
	case 0:
		return BigImpl0{1000}
	case 1:
		return BigImpl1{1001}
	case 2:
		return BigImpl2{1002}
	case 3:
		return BigImpl3{1003}
	case 4:
		return BigImpl4{1004}
	case 5:
		return BigImpl5{1005}
	case 6:
		return BigImpl6{1006}
	case 7:
		return BigImpl7{1007}
	case 8:
		return BigImpl8{1008}
	case 9:
		return BigImpl9{1009}
	case 10:
		return BigImpl10{1010}
	case 11:
		return BigImpl11{1011}
	case 12:
		return BigImpl12{1012}
	case 13:
		return BigImpl13{1013}
	case 14:
		return BigImpl14{1014}
	case 15:
		return BigImpl15{1015}
	case 16:
		return BigImpl16{1016}
	case 17:
		return BigImpl17{1017}
	case 18:
		return BigImpl18{1018}
	case 19:
		return BigImpl19{1019}
	case 20:
		return BigImpl20{1020}
	case 21:
		return BigImpl21{1021}
	case 22:
		return BigImpl22{1022}
	case 23:
		return BigImpl23{1023}
	case 24:
		return BigImpl24{1024}
	case 25:
		return BigImpl25{1025}
	case 26:
		return BigImpl26{1026}
	case 27:
		return BigImpl27{1027}
	case 28:
		return BigImpl28{1028}
	case 29:
		return BigImpl29{1029}
	case 30:
		return BigImpl30{1030}
	case 31:
		return BigImpl31{1031}
	case 32:
		return BigImpl32{1032}
	case 33:
		return BigImpl33{1033}
	case 34:
		return BigImpl34{1034}
	case 35:
		return BigImpl35{1035}
	case 36:
		return BigImpl36{1036}
	case 37:
		return BigImpl37{1037}
	case 38:
		return BigImpl38{1038}
	case 39:
		return BigImpl39{1039}
	}
	return nil
}
