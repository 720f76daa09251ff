"""English abbreviations, names and symbols with their readings."""
WHITELIST = {
    "#": "hash",
    "$": "dollar",
    "%": "percent",
    "&": "and",
    "*": "asterisk",
    "+": "plus",
    ".I.o.": "IO",
    ".IO": "IO",
    ".USA": "USA",
    "=": "equals",
    "@": "at",
    "A&A": "A and A",
    "A&C": "A and C",
    "A&CR": "A and CR",
    "A&D": "A and D",
    "A&E": "A and E",
    "A&I": "A and I",
    "A&K": "A and K",
    "A&L": "A and L",
    "A&M": "A and M",
    "A&M's": "A and M's",
    "A&O": "A and O",
    "A&P": "A and P",
    "A&P's": "A and P's",
    "A&R": "A and R",
    "A&T": "A and T",
    "A&T's": "A and T's",
    "A'ma": "AMA",
    "A. A.": "a a",
    "A. B.": "AB",
    "A. C.": "AC",
    "A. D": "AD",
    "A. D.": "AD",
    "A. E.": "AE",
    "A. F.": "AF",
    "A. G.": "AG",
    "A. H.": "AH",
    "A. I.": "AI",
    "A. J.": "AJ",
    "A. K.": "AK",
    "A. L.": "AL",
    "A. M.": "AM",
    "A. N.": "AN",
    "A. O.": "AO",
    "A. P.": "AP",
    "A. R.": "AR",
    "A. S.": "AS",
    "A. T.": "AT",
    "A. U.": "AU",
    "A. V.": "AV",
    "A. W.": "AW",
    "A. X.": "AX",
    "A. Y.": "AY",
    "A. Z.": "AZ",
    "A.A.": "AA",
    "A.B.": "AB",
    "A.C.": "AC",
    "A.D": "AD",
    "A.D.": "AD",
    "A.E.": "AE",
    "A.F.": "AF",
    "A.G.": "AG",
    "A.H.": "AH",
    "A.I.": "AI",
    "A.J.": "AJ",
    "A.K.": "AK",
    "A.L.": "AL",
    "A.M.": "AM",
    "A.N.": "AN",
    "A.O.": "AO",
    "A.P.": "AP",
    "A.R.": "AR",
    "A.S.": "AS",
    "A.T.": "AT",
    "A.T.s": "AT's",
    "A.U.": "AU",
    "A.V.": "AV",
    "A.W.": "AW",
    "A.Y.": "AY",
    "A.Z.": "AZ",
    "A.s": "A's",
    "A/C": "AC",
    "AAAs": "AAA's",
    "AACNo": "AACNO",
    "AADTs": "AADT's",
    "AAFld": "AAFLD",
    "AC&W": "AC and W",
    "ACC&S": "ACC and S",
    "ACMs": "ACM's",
    "AD&D": "AD and D",
    "ADCs": "ADC's",
    "ADLs": "ADL's",
    "ADNs": "ADN's",
    "ADRs": "ADR's",
    "ADSRs": "ADSR's",
    "ADSs": "ADS's",
    "AEre": "AERE",
    "AErn": "AERN",
    "AFCSThe": "AFCSTHE",
    "AFMs": "AFM's",
    "AG&G": "AG and G",
    "AGNs": "AGN's",
    "AGRs": "AGR's",
    "AICs": "AIC's",
    "AIs": "AI's",
    "AKAPs": "AKAP's",
    "AKAs": "AKA's",
    "ALUs": "ALU's",
    "AM&FM": "AM and FM",
    "AM&O": "AM and O",
    "AMAs": "AMA's",
    "AMCs": "AMC's",
    "AOCCs": "AOCC's",
    "AORs": "AOR's",
    "AP&T": "AP and T",
    "APCh": "APCH",
    "APCs": "APC's",
    "APICv": "APICV",
    "APi": "API",
    "APs": "AP's",
    "ARGs": "ARG's",
    "ARMv": "ARMV",
    "ASSPs": "ASSP's",
    "AT&SF": "AT and SF",
    "AT&T": "AT and T",
    "AT&T's": "AT and T's",
    "ATBs": "ATB's",
    "ATMs": "ATM's",
    "ATOs": "ATO's",
    "ATVs": "ATV's",
    "ATi": "ATI",
    "AUVs": "AUV's",
    "AVCs": "AVC's",
    "AVRs": "AVR's",
    "AWAs": "AWA's",
    "AaB": "AAB",
    "Aabo": "AABO",
    "Aadu": "AADU",
    "Aap": "AAP",
    "Abhi": "ABHI",
    "Abl": "ABL",
    "Abp": "ABP",
    "Abr": "ABR",
    "Abz": "ABZ",
    "AcSOC": "ACSOC",
    "Acad": "ACAD",
    "Achs": "ACH's",
    "Acis": "ACI's",
    "AcpA": "ACPA",
    "AcpB": "ACPB",
    "Acy": "ACY",
    "AdC": "ADC",
    "AdK": "ADK",
    "AdP": "ADP",
    "AdaSL": "ADASL",
    "Adab": "ADAB",
    "Adl": "ADL",
    "Adm": "ADM",
    "Adwa": "ADWA",
    "Aed": "AED",
    "Aeka": "AEKA",
    "Aema": "AEMA",
    "Aert": "AERT",
    "Aes": "AE's",
    "Af": "AF",
    "AfD": "AFD",
    "AfDB": "AFDB",
    "AfNS": "AFNS",
    "Afa": "AFA",
    "Afaf": "AFAF",
    "Afd": "AFD",
    "Afe": "AFE",
    "Aff": "AFF",
    "Afi": "AFI",
    "Afiq": "AFIQ",
    "Afo": "AFO",
    "Afr": "AFR",
    "AgN": "AGN",
    "Agco": "AGCO",
    "Agda": "AGDA",
    "Agi": "AGI",
    "Agis": "AGI's",
    "Agn": "AGN",
    "Agsu": "AGSU",
    "Agte": "AGTE",
    "Agu": "AGU",
    "Ahdhra": "AHDHRA",
    "Ahe": "AHE",
    "Ahirs": "AHIR's",
    "Ahk": "AHK",
    "Ahsa'i": "AHSAI",
    "Ahta": "AHTA",
    "Ahu": "AHU",
    "Ahva": "AHVA",
    "AiG": "AIG",
    "Aias": "AIA's",
    "Aicme": "AICME",
    "Aiel": "AIEL",
    "Aife": "AIFE",
    "Aigis": "AIGI's",
    "Aija": "AIJA",
    "Aik": "AIK",
    "Aist": "AIST",
    "Aitu": "AITU",
    "Aiud": "AIUD",
    "Ajba": "AJBA",
    "Ajmi": "AJMI",
    "Ajok": "AJOK",
    "Ajsa": "AJSA",
    "Aju": "AJU",
    "Aka": "AKA",
    "Aka.": "AKA",
    "Akaa": "AKAA",
    "Akpa": "AKPA",
    "Aku": "AKU",
    "Alh": "ALH",
    "AmBX": "AMBX",
    "Amb": "AMB",
    "Amd": "AMD",
    "Amda": "AMDA",
    "Amha": "AMHA",
    "Amli": "AMLI",
    "Amlwch": "AMLWCH",
    "Amm": "AMM",
    "Ampt": "AMPT",
    "Ams'": "AM's",
    "Amt": "AMT",
    "Amta": "AMTA",
    "Amts": "AMT's",
    "Amu": "AMU",
    "Anej": "ANEJ",
    "Angti": "ANGTI",
    "Angu": "ANGU",
    "Anhe": "ANHE",
    "Anr": "ANR",
    "Anrep": "ANREP",
    "AoS": "AOS",
    "Aodh": "AODH",
    "Aodla": "AODLA",
    "Aogo": "AOGO",
    "Aoke": "AOKE",
    "Aoko": "AOKO",
    "Aol": "AOL",
    "Aola": "AOLA",
    "Aone": "AONE",
    "Aoni": "AONI",
    "Aoos": "AOO's",
    "Aotus": "AOTU's",
    "Apc": "APC",
    "Aph": "APH",
    "Api": "API",
    "Apiao": "APIAO",
    "Apic": "APIC",
    "Apl": "APL",
    "Aplu": "APLU",
    "Apphttp": "APPHTTP",
    "Appl": "APPL",
    "Appts": "APPT's",
    "Appu": "APPU",
    "Aps": "AP's",
    "Apt.": "Apartment",
    "Aqa": "AQA",
    "Aql": "AQL",
    "Aqr": "AQR",
    "ArH": "ARH",
    "ArgR": "ARGR",
    "Arnd": "ARND",
    "Arv": "ARV",
    "Arwi": "ARWI",
    "As'ad": "ASAD",
    "Asai": "ASAI",
    "Asao": "ASAO",
    "Asasp": "ASASP",
    "Asci": "ASCI",
    "Asdis": "ASDI's",
    "Asfi": "ASFI",
    "Asn": "ASN",
    "Aso": "ASO",
    "Aspe": "ASPE",
    "Asr": "ASR",
    "Assn": "ASSN",
    "Assoc": "ASSOC",
    "Asst": "ASST",
    "Aste": "ASTE",
    "Astt": "ASTT",
    "Aswa": "ASWA",
    "Ata's": "ATA's",
    "Atac": "ATAC",
    "Atad": "ATAD",
    "Atas": "ATA's",
    "Atg": "ATG",
    "Ath": "ATH",
    "Ati": "ATI",
    "Atia's": "ATIA's",
    "Atid": "ATID",
    "Atiiq": "ATIIQ",
    "Atil": "ATIL",
    "Atiq": "ATIQ",
    "Ativ": "ATIV",
    "Atka": "ATKA",
    "Atl": "ATL",
    "Atli": "ATLI",
    "Atm": "ATM",
    "Atos": "ATO's",
    "Atri": "ATRI",
    "AtxA": "ATXA",
    "Aub": "AUB",
    "Aubl": "AUBL",
    "Auw": "AUW",
    "AvP": "AVP",
    "Avn": "AVN",
    "Avo": "AVO",
    "Avs": "AV's",
    "Avs'": "AV's",
    "Awa": "AWA",
    "Awo": "AWO",
    "Awwa": "AWWA",
    "AzTV": "AZTV",
    "Azg": "AZG",
    "Azi": "AZI",
    "B&A": "B and A",
    "B&B": "B and B",
    "B&Bs": "B and B's",
    "B&H": "B and H",
    "B&K": "B and K",
    "B&M": "B and M",
    "B&N": "B and N",
    "B&O": "B and O",
    "B&O's": "B and O's",
    "B&Q": "B and Q",
    "B&W": "B and W",
    "B'Av": "BAV",
    "B. A.": "BA",
    "B. B.": "BB",
    "B. C": "BC",
    "B. C.": "BC",
    "B. D.": "BD",
    "B. E.": "BE",
    "B. F.": "BF",
    "B. G.": "BG",
    "B. H.": "BH",
    "B. I.": "BI",
    "B. J.": "BJ",
    "B. K.": "BK",
    "B. L.": "BL",
    "B. M.": "BM",
    "B. N.": "BN",
    "B. O.": "BO",
    "B. P.": "BP",
    "B. Q.": "BQ",
    "B. R.": "BR",
    "B. S.": "BS",
    "B. T.": "BT",
    "B. V.": "BV",
    "B. W.": "BW",
    "B. Y.": "BY",
    "B. s": "B's",
    "B.'s": "B's",
    "B.A.": "BA",
    "B.B.": "BB",
    "B.C": "BC",
    "B.C.": "BC",
    "B.C.'s": "BC's",
    "B.D.": "BD",
    "B.E.": "BE",
    "B.F.": "BF",
    "B.G.": "BG",
    "B.H.": "BH",
    "B.I.": "BI",
    "B.I.G.'s": "BIG's",
    "B.J.": "BJ",
    "B.J.'s": "BJ's",
    "B.K.": "BK",
    "B.L.": "BL",
    "B.M.": "BM",
    "B.N.": "BN",
    "B.O.": "BO",
    "B.P.": "BP",
    "B.R.": "BR",
    "B.S.": "BS",
    "B.T.": "BT",
    "B.U.": "BU",
    "B.V.": "BV",
    "B.W.": "BW",
    "B.Z.": "BZ",
    "BAe": "BAE",
    "BB&CI": "BB and CI",
    "BB&S": "BB and S",
    "BB&T": "BB and T",
    "BBC&PJR": "BBC and PJR",
    "BBQ'er": "BBQER",
    "BBSes": "BBSE's",
    "BCSic": "BCSIC",
    "BCs": "BC's",
    "BEMs": "BEM's",
    "BFFs": "BFF's",
    "BH&E": "BH and E",
    "BHMs": "BHM's",
    "BJPs": "BJP's",
    "BKCa": "BKCA",
    "BLR&D": "BLR and D",
    "BLTs": "BLT's",
    "BMPs": "BMP's",
    "BMRs": "BMR's",
    "BOCs": "BOC's",
    "BRBs": "BRB's",
    "BRTs": "BRT's",
    "BTUs": "BTU's",
    "BWTs": "BWT's",
    "Ba'al": "BAAL",
    "Ba'ath": "BAATH",
    "Baad": "BAAD",
    "Baal": "BAAL",
    "Baam": "BAAM",
    "Baap": "BAAP",
    "Baat": "BAAT",
    "Bac": "BAC",
    "Bae": "BAE",
    "Bauw": "BAUW",
    "BbvCI": "BBVCI",
    "Bcci": "BCCI",
    "BdA": "BDA",
    "BdU": "BDU",
    "Bde": "BDE",
    "Bedw": "BEDW",
    "Bei": "BEI",
    "Beih": "BEIH",
    "Beis": "BEI's",
    "Ber": "BER",
    "Bes": "BE's",
    "BglII": "BGLII",
    "Bgy": "BGY",
    "Bha": "BHA",
    "Bhe": "BHE",
    "BiH": "BIH",
    "Bie": "BIE",
    "Biem": "BIEM",
    "Bldg.": "Building",
    "Blla": "BLLA",
    "BoC": "BOC",
    "Boac": "BOAC",
    "Boc": "BOC",
    "Boj": "BOJ",
    "Brbic": "BRBIC",
    "Brne": "BRNE",
    "Brno": "BRNO",
    "Brza": "BRZA",
    "Brzyk": "BRZYK",
    "Bs": "B's",
    "BsaL": "BSAL",
    "Btry": "BTRY",
    "Bwa": "BWA",
    "Bxa": "BXA",
    "Bxe": "BXE",
    "Byk": "BYK",
    "Byo": "BYO",
    "Byou": "BYOU",
    "Byrl": "BYRL",
    "Bzik": "BZIK",
    "Bzyb": "BZYB",
    "C&A": "C and A",
    "C&C": "C and C",
    "C&D": "C and D",
    "C&EI's": "C and EI's",
    "C&EN": "C and EN",
    "C&F": "C and F",
    "C&G": "C and G",
    "C&H": "C and H",
    "C&MA": "C and MA",
    "C&O": "C and O",
    "C&P": "C and P",
    "C&S": "C and S",
    "C&SF": "C and SF",
    "C&T": "C and T",
    "C&V": "C and V",
    "C'e": "CE",
    "C. A.": "CA",
    "C. B.": "CB",
    "C. C.": "CC",
    "C. D.": "CD",
    "C. E.": "CE",
    "C. F.": "CF",
    "C. G.": "CG",
    "C. H.": "CH",
    "C. I.": "CI",
    "C. J.": "CJ",
    "C. K.": "CK",
    "C. L.": "CL",
    "C. M.": "CM",
    "C. N.": "CN",
    "C. O.": "CO",
    "C. P.": "CP",
    "C. R.": "CR",
    "C. S.": "CS",
    "C. U.": "CU",
    "C. V.": "CV",
    "C. W.": "CW",
    "C. Y.": "CY",
    "C.A.": "CA",
    "C.A.M.'s": "CAM's",
    "C.B.": "CB",
    "C.C.": "CC",
    "C.D.": "CD",
    "C.E.": "CE",
    "C.F.": "CF",
    "C.G.": "CG",
    "C.H.": "CH",
    "C.I.": "CI",
    "C.J.": "CJ",
    "C.K.": "CK",
    "C.L.": "CL",
    "C.M.": "CM",
    "C.N.": "CN",
    "C.O.": "CO",
    "C.P.": "CP",
    "C.R.": "CR",
    "C.S.": "CS",
    "C.V.": "CV",
    "C.W.": "CW",
    "C.X.": "CX",
    "C.Y.": "CY",
    "C.Z.": "CZ",
    "C.s": "C's",
    "CA&CC": "CA and CC",
    "CB&CNS": "CB and CNS",
    "CB&Q": "CB and Q",
    "CBDs": "CBD's",
    "CBGBs": "CBGB's",
    "CBs": "CB's",
    "CCDev": "CCDEV",
    "CCDs": "CCD's",
    "CCEd": "CCED",
    "CCRCs": "CCRC's",
    "CCi": "CCI",
    "CD&DR": "CD and DR",
    "CD&R": "CD and R",
    "CD&V": "CD and V",
    "CDOs": "CDO's",
    "CDPs": "CDP's",
    "CDSPCo": "CDSPCO",
    "CDTi": "CDTI",
    "CDi": "CDI",
    "CDs": "CD's",
    "CEOs": "CEO's",
    "CEOs'": "CEO's",
    "CFOs": "CFO's",
    "CFTs": "CFT's",
    "CHP'den": "CHPDEN",
    "CHPs": "CHP's",
    "CIOs": "CIO's",
    "CIs": "CI's",
    "CL&N": "CL and N",
    "CL&P": "CL and P",
    "CLBs": "CLB's",
    "CLTs": "CLT's",
    "CLs": "CL's",
    "CMCs": "CMC's",
    "CMMs": "CMM's",
    "CNMs": "CNM's",
    "CNTs": "CNT's",
    "CNVs": "CNV's",
    "CNs": "CN's",
    "CPCs": "CPC's",
    "CPUs": "CPU's",
    "CQDs": "CQD's",
    "CRLs": "CRL's",
    "CRs": "CR's",
    "CSIs": "CSI's",
    "CSOs": "CSO's",
    "CSPs": "CSP's",
    "CSSNCs": "CSSNC's",
    "CSis": "CSI's",
    "CTAs": "CTA's",
    "CTLs": "CTL's",
    "CVEs": "CVE's",
    "CVOs": "CVO's",
    "CVTs": "CVT's",
    "CVs": "CV's",
    "Caat": "CAAT",
    "Cadw": "CADW",
    "Cae": "CAE",
    "Capt.": "captain",
    "Cas": "CA's",
    "Casc": "CASC",
    "CbiXS": "CBIXS",
    "Cca": "CCA",
    "CcaA": "CCAA",
    "CdTe": "CDTE",
    "CdtA": "CDTA",
    "Ce": "CE",
    "CeX": "CEX",
    "Cec": "CEC",
    "Ceel": "CEEL",
    "Cefn": "CEFN",
    "Cen": "CEN",
    "Ceol": "CEOL",
    "Ceorl": "CEORL",
    "Ceos": "CEO's",
    "Cer": "CER",
    "Ces": "CE's",
    "Cex": "CEX",
    "Cfa": "CFA",
    "Chhu": "CHHU",
    "Chirs": "CHIR's",
    "Chy": "CHY",
    "Ci": "CI",
    "CiTD": "CITD",
    "CiU": "CIU",
    "Cia": "CIA",
    "Cicic": "CICIC",
    "Cim": "CIM",
    "Cio": "CIO",
    "Cip": "CIP",
    "CitX": "CITX",
    "Ciu": "CIU",
    "Ciuc": "CIUC",
    "Cixi": "CIXI",
    "Cle": "CLE",
    "Clo": "CLO",
    "Clu": "CLU",
    "Clwyd": "CLWYD",
    "Cmde": "CMDE",
    "Cmte": "CMTE",
    "Cnut's": "CNUT's",
    "Co.": "company",
    "Col.": "colonel",
    "Cre": "CRE",
    "Crkva": "CRKVA",
    "Crne": "CRNE",
    "Crni": "CRNI",
    "Crno": "CRNO",
    "Cs": "C's",
    "CsI": "CSI",
    "Csa": "CSA",
    "Csak": "CSAK",
    "Csaky": "CSAKY",
    "Csuz": "CSUZ",
    "Ctrip": "CTRIP",
    "Cuyp": "CUYP",
    "Cwej": "CWEJ",
    "Cwele": "CWELE",
    "CyP": "CYP",
    "Cyn": "CYN",
    "Cyrl": "CYRL",
    "Cys": "CY's",
    "D&AD": "D and AD",
    "D&C": "D and C",
    "D&D": "D and D",
    "D&G": "D and G",
    "D&H": "D and H",
    "D&M": "D and M",
    "D&SNGRR": "D and SNGRR",
    "D&W": "D and W",
    "D'Jok": "DJOK",
    "D'oh": "DOH",
    "D. A.": "DA",
    "D. B.": "DB",
    "D. C.": "DC",
    "D. D.": "DD",
    "D. E.": "DE",
    "D. F.": "DF",
    "D. G.": "DG",
    "D. H.": "DH",
    "D. J.": "DJ",
    "D. K.": "DK",
    "D. L.": "DL",
    "D. M.": "DM",
    "D. N.": "DN",
    "D. O.": "DO",
    "D. P.": "DP",
    "D. R.": "DR",
    "D. S.": "DS",
    "D. T.": "DT",
    "D. V.": "DV",
    "D. W.": "DW",
    "D. Y.": "DY",
    "D.A.": "DA",
    "D.B.": "DB",
    "D.C.": "DC",
    "D.C.'s": "DC's",
    "D.D.": "DD",
    "D.E.": "DE",
    "D.F.": "DF",
    "D.G.": "DG",
    "D.H.": "DH",
    "D.I.": "DI",
    "D.J.": "DJ",
    "D.J.s": "DJ's",
    "D.K.": "DK",
    "D.L.": "DL",
    "D.M.": "DM",
    "D.M.C.'s": "DMC's",
    "D.N.": "DN",
    "D.O.": "DO",
    "D.O.A.'s": "DOA's",
    "D.P.": "DP",
    "D.Q.": "DQ",
    "D.R.": "DR",
    "D.S.": "DS",
    "D.T.": "DT",
    "D.U.": "DU",
    "D.V.": "DV",
    "D.W.": "DW",
    "D.X.": "DX",
    "DCCs": "DCC's",
    "DCUs": "DCU's",
    "DCom": "DCOM",
    "DCs": "DC's",
    "DDi": "DDI",
    "DFCs": "DFC's",
    "DFPs": "DFP's",
    "DFs": "DF's",
    "DHBs": "DHB's",
    "DHSs": "DHS's",
    "DIYs": "DIY's",
    "DJ'ed": "DJED",
    "DJs": "DJ's",
    "DL&LR": "DL and LR",
    "DL&W": "DL and W",
    "DLLs": "DLL's",
    "DM&E": "DM and E",
    "DMUs": "DMU's",
    "DMed": "DMED",
    "DMs": "DM's",
    "DNFs": "DNF's",
    "DNSBLs": "DNSBL's",
    "DProf": "DPROF",
    "DPs": "DP's",
    "DRIs": "DRI's",
    "DS&BB": "DS and BB",
    "DSGi": "DSGI",
    "DSMs": "DSM's",
    "DSi": "DSI",
    "DT&E": "DT and E",
    "DT&I": "DT and I",
    "DTCs": "DTC's",
    "DTDs": "DTD's",
    "DTs": "DT's",
    "DVCs": "DVC's",
    "DVDs": "DVD's",
    "DXers": "DXER's",
    "Daai": "DAAI",
    "Dav": "DAV",
    "Ddoc": "DDOC",
    "Ddu": "DDU",
    "DeI": "DEI",
    "Deah": "DEAH",
    "Dei": "DEI",
    "Deijm": "DEIJM",
    "Deip": "DEIP",
    "Dez": "DEZ",
    "DfE": "DFE",
    "DfES": "DFES",
    "Dfa": "DFA",
    "Dha": "DHA",
    "Dheku": "DHEKU",
    "Dhod": "DHOD",
    "Dhol": "DHOL",
    "Dhoo": "DHOO",
    "Dhor": "DHOR",
    "Dhou": "DHOU",
    "DiY": "DIY",
    "Diyn": "DIYN",
    "DjVu": "DJVU",
    "DjVus": "DJVU's",
    "Djam": "DJAM",
    "Djem": "DJEM",
    "Dji": "DJI",
    "Djo": "DJO",
    "DnA": "DNA",
    "Dna": "DNA",
    "DnaJ": "DNAJ",
    "Dnepr": "DNEPR",
    "Dnes": "DNE's",
    "DoD": "DOD",
    "Dod": "DOD",
    "Dok": "DOK",
    "Domt": "DOMT",
    "Dop": "DOP",
    "DotSVN": "DOTSVN",
    "Douw": "DOUW",
    "Dozhd": "DOZHD",
    "Dr.": "doctor",
    "Dri": "DRI",
    "Driu": "DRIU",
    "Driv": "DRIV",
    "Drnis": "DRNI's",
    "Dro": "DRO",
    "Drs.": "doctors",
    "Drska": "DRSKA",
    "Ds": "D's",
    "DsbA": "DSBA",
    "Dva": "DVA",
    "Dvin": "DVIN",
    "Dvir": "DVIR",
    "Dwa": "DWA",
    "Dwedw": "DWEDW",
    "Dwi": "DWI",
    "Dy": "DY",
    "Dydd": "DYDD",
    "Dzog": "DZOG",
    "Dzor": "DZOR",
    "Dzus": "DZU's",
    "E&BR": "E and BR",
    "E&GR": "E and GR",
    "E&M": "E and M",
    "E&NA": "E and NA",
    "E&P": "E and P",
    "E&Y": "E and Y",
    "E. A.": "EA",
    "E. B.": "EB",
    "E. C.": "EC",
    "E. D.": "ED",
    "E. E.": "EE",
    "E. F.": "EF",
    "E. H.": "EH",
    "E. I.": "EI",
    "E. J.": "EJ",
    "E. K.": "EK",
    "E. L.": "EL",
    "E. M.": "EM",
    "E. N.": "EN",
    "E. O.": "EO",
    "E. P.": "EP",
    "E. R.": "ER",
    "E. S.": "ES",
    "E. T.": "ET",
    "E. U.": "EU",
    "E. V.": "EV",
    "E. W.": "EW",
    "E. Y.": "EY",
    "E.A.": "EA",
    "E.B.": "EB",
    "E.C.": "EC",
    "E.D.": "ED",
    "E.E.": "EE",
    "E.F.": "EF",
    "E.H.": "EH",
    "E.I.": "EI",
    "E.J.": "EJ",
    "E.K.": "EK",
    "E.L.": "EL",
    "E.M.": "EM",
    "E.N.": "EN",
    "E.O.": "EO",
    "E.P.": "EP",
    "E.P.s": "EP's",
    "E.R.": "ER",
    "E.S.": "ES",
    "E.T.": "ET",
    "E.U.": "EU",
    "E.V.": "EV",
    "E.W.": "EW",
    "E.X.": "EX",
    "EAMs": "EAM's",
    "EBWs": "EBW's",
    "ECNs": "ECN's",
    "ECP&DA's": "ECP and DA's",
    "ECVs": "ECV's",
    "EDMs": "EDM's",
    "EEZs": "EEZ's",
    "EG&G": "EG and G",
    "EHAs": "EHA's",
    "EITs": "EIT's",
    "EJBs": "EJB's",
    "ELTs": "ELT's",
    "ELUs": "ELU's",
    "EMDs": "EMD's",
    "ENTJs": "ENTJ's",
    "ERJs": "ERJ's",
    "ES3": "ES three",
    "ESCs": "ESC's",
    "ESPNhttp": "ESPNHTTP",
    "ETBs": "ETB's",
    "ETFs": "ETF's",
    "ETs": "ET's",
    "EUBs": "EUB's",
    "EVs": "EV's",
    "EWOs": "EWO's",
    "Eas": "EA's",
    "Eav": "EAV",
    "Ebn": "EBN",
    "Ebru": "EBRU",
    "Ec": "EC",
    "Eccl": "ECCL",
    "Ece": "ECE",
    "Ecem": "ECEM",
    "Edh": "EDH",
    "Edmx": "EDMX",
    "Edn": "EDN",
    "Eds": "ED's",
    "Edw": "EDW",
    "Eeb": "EEB",
    "Eef": "EEF",
    "Eega": "EEGA",
    "Ees": "EE's",
    "Eeuw": "EEUW",
    "Ef": "EF",
    "Efs": "EF's",
    "Efu": "EFU",
    "Egba": "EGBA",
    "Egi": "EGI",
    "Egyl": "EGYL",
    "Ehttp": "EHTTP",
    "EiCs": "EIC's",
    "Eitr": "EITR",
    "Ekma": "EKMA",
    "Ekow": "EKOW",
    "Eks": "EK's",
    "Embd": "EMBD",
    "Emea": "EMEA",
    "Emge": "EMGE",
    "EnBW": "ENBW",
    "Enas": "ENA's",
    "EncFS": "ENCFS",
    "Encyc": "ENCYC",
    "Enes": "ENE's",
    "Engl": "ENGL",
    "Engr": "ENGR",
    "Eni": "ENI",
    "Enn": "ENN",
    "Ens": "EN's",
    "Enso": "ENSO",
    "EoD": "EOD",
    "Eois": "EOI's",
    "Eol": "EOL",
    "Eole": "EOLE",
    "Eolss": "EOLS's",
    "Eom": "EOM",
    "Eora": "EORA",
    "Eorl": "EORL",
    "Eors": "EOR's",
    "Ep": "EP",
    "Epe": "EPE",
    "Eph": "EPH",
    "Ephs": "EPH's",
    "Epi": "EPI",
    "Epos": "EPO's",
    "Eq": "EQ",
    "Eru": "ERU",
    "Eruv": "ERUV",
    "Erv": "ERV",
    "Esa": "ESA",
    "Esa's": "ESA's",
    "Esam": "ESAM",
    "Esat": "ESAT",
    "Esd": "ESD",
    "Esq": "ESQ",
    "Esq.": "esquire",
    "Esra": "ESRA",
    "Esraa": "ESRAA",
    "Esref": "ESREF",
    "Esri": "ESRI",
    "Estd": "ESTD",
    "Esva": "ESVA",
    "Et'hem": "ETHEM",
    "Etad": "ETAD",
    "Eti": "ETI",
    "Eto": "ETO",
    "Ets": "ET's",
    "Ett": "ETT",
    "Ettre": "ETTRE",
    "Etts": "ETT's",
    "Etz": "ETZ",
    "Eurwg": "EURWG",
    "Euse": "EUSE",
    "Eusi": "EUSI",
    "EvaGT": "EVAGT",
    "Evna": "EVNA",
    "Ewa's": "EWA's",
    "Ewha": "EWHA",
    "Ewu": "EWU",
    "Exptl": "EXPTL",
    "Eyk": "EYK",
    "Ez": "EZ",
    "Ezaa": "EZAA",
    "Ezh": "EZH",
    "Ezu": "EZU",
    "Ezy": "EZY",
    "F&C": "F and C",
    "F&I": "F and I",
    "F&W": "F and W",
    "F. A.": "FA",
    "F. B.": "FB",
    "F. C.": "FC",
    "F. D.": "FD",
    "F. E.": "FE",
    "F. F.": "FF",
    "F. G.": "FG",
    "F. H.": "FH",
    "F. I.": "FI",
    "F. J.": "FJ",
    "F. K.": "FK",
    "F. L.": "FL",
    "F. M.": "FM",
    "F. N.": "FN",
    "F. O.": "FO",
    "F. P.": "FP",
    "F. R.": "FR",
    "F. S.": "FS",
    "F. T.": "FT",
    "F. V.": "FV",
    "F. W.": "FW",
    "F. s": "F's",
    "F.A.": "FA",
    "F.A.B.'s": "FAB's",
    "F.B.": "FB",
    "F.B.G.s": "FBG's",
    "F.C.": "FC",
    "F.C.'s": "FC's",
    "F.D.": "FD",
    "F.E.": "FE",
    "F.F.": "FF",
    "F.G.": "FG",
    "F.H.": "FH",
    "F.I": "F",
    "F.I.": "FI",
    "F.J.": "FJ",
    "F.K.": "FK",
    "F.L.": "FL",
    "F.M.": "FM",
    "F.N.": "FN",
    "F.P.": "FP",
    "F.Q.": "FQ",
    "F.R.": "FR",
    "F.S.": "FS",
    "F.T.": "FT",
    "F.V.": "FV",
    "F.W.": "FW",
    "F.Y.": "FY",
    "F.Z.": "FZ",
    "FAIPs": "FAIP's",
    "FAs": "FA's",
    "FBOs": "FBO's",
    "FCBs": "FCB's",
    "FD&C": "FD and C",
    "FDCPAs": "FDCPA's",
    "FDICs": "FDIC's",
    "FEGs": "FEG's",
    "FFs": "FF's",
    "FGs": "FG's",
    "FMs": "FM's",
    "FPDs": "FPD's",
    "FPGAs": "FPGA's",
    "FPM&SA": "FPM and SA",
    "FPSs": "FPS's",
    "FSSs": "FSS's",
    "FTAs": "FTA's",
    "Fa": "FA",
    "Faa": "FAA",
    "Faaa": "FAAA",
    "FabH": "FABH",
    "FabR": "FABR",
    "Fadl": "FADL",
    "Faf": "FAF",
    "Fafhrd": "FAFHRD",
    "Fai": "FAI",
    "Faiq": "FAIQ",
    "Fal": "FAL",
    "Fas": "FA's",
    "FasL": "FASL",
    "Fasc": "FASC",
    "FdI": "FDI",
    "Fes": "FE's",
    "Fi'd": "FID",
    "FiBL": "FIBL",
    "FiO": "FIO",
    "Figl": "FIGL",
    "Fio": "FIO",
    "Fla": "FLA",
    "Fles": "FLE's",
    "Fri": "Friday",
    "Fru": "FRU",
    "Frwydr": "FRWYDR",
    "Fs": "F's",
    "Ft.": "Fort",
    "FtsA": "FTSA",
    "Ftuh": "FTUH",
    "Fyb": "FYB",
    "Fyn": "FYN",
    "Fyw": "FYW",
    "G&C": "G and C",
    "G&L": "G and L",
    "G&P": "G and P",
    "G&S": "G and S",
    "G. A.": "GA",
    "G. B.": "GB",
    "G. C.": "GC",
    "G. D.": "GD",
    "G. E.": "GE",
    "G. F.": "GF",
    "G. G.": "GG",
    "G. H.": "GH",
    "G. I.": "GI",
    "G. J.": "GJ",
    "G. K.": "GK",
    "G. L.": "GL",
    "G. M.": "GM",
    "G. N.": "GN",
    "G. P.": "GP",
    "G. Q.": "GQ",
    "G. R.": "GR",
    "G. S.": "GS",
    "G. T.": "GT",
    "G. U.": "GU",
    "G. V.": "GV",
    "G. W.": "GW",
    "G. Y.": "GY",
    "G.A.": "GA",
    "G.B.": "GB",
    "G.C.": "GC",
    "G.D.": "GD",
    "G.E.": "GE",
    "G.F.": "GF",
    "G.G.": "GG",
    "G.H.": "GH",
    "G.I.": "GI",
    "G.J.": "GJ",
    "G.K.": "GK",
    "G.L.": "GL",
    "G.M.": "GM",
    "G.N.": "GN",
    "G.O.": "GO",
    "G.P.": "GP",
    "G.R.": "GR",
    "G.S.": "GS",
    "G.T.": "GT",
    "G.U.": "GU",
    "G.V.": "GV",
    "G.W.": "GW",
    "GB&NDR": "GB and NDR",
    "GC&SF": "GC and SF",
    "GCSEs": "GCSE's",
    "GDPs": "GDP's",
    "GF&A": "GF and A",
    "GH&SA": "GH and SA",
    "GHGs": "GHG's",
    "GMOs": "GMO's",
    "GMs": "GM's",
    "GNP&BR": "GNP and BR",
    "GNPs": "GNP's",
    "GPCRs": "GPCR's",
    "GPMGs": "GPMG's",
    "GPRs": "GPR's",
    "GPUs": "GPU's",
    "GPdI": "GPDI",
    "GRBs": "GRB's",
    "GRCs": "GRC's",
    "GSIs": "GSI's",
    "GSOp": "GSOP",
    "GTAs": "GTA's",
    "GTi": "GTI",
    "GTs": "GT's",
    "GUIs": "GUI's",
    "GWe": "GWE",
    "Gaac": "GAAC",
    "GbE": "GBE",
    "Gbe": "GBE",
    "Gdal": "GDAL",
    "Gde": "GDE",
    "Gdow": "GDOW",
    "GeV": "GEV",
    "Gebr": "GEBR",
    "Gebt": "GEBT",
    "Ged": "GED",
    "Gek": "GEK",
    "Gen.": "general",
    "Geu": "GEU",
    "Gev": "GEV",
    "Gfa": "GFA",
    "Ghe": "GHE",
    "Ghir": "GHIR",
    "Giei": "GIEI",
    "Gla": "GLA",
    "Gli": "GLI",
    "Glis": "GLI's",
    "Glos": "GLO's",
    "GmbH": "GMBH",
    "Gmel": "GMEL",
    "Gmul": "GMUL",
    "Gov.": "governor",
    "GpIIb": "GPIIB",
    "Gra": "GRA",
    "Grbac": "GRBAC",
    "Gre": "GRE",
    "Gry": "GRY",
    "Gryf": "GRYF",
    "Gs": "G's",
    "GvpA": "GVPA",
    "Gwet": "GWET",
    "Gwi": "GWI",
    "Gy": "GY",
    "Gyn": "GYN",
    "Gyps": "GYP's",
    "Gyu": "GYU",
    "H&A": "H and A",
    "H&BR": "H and BR",
    "H&F": "H and F",
    "H&H": "H and H",
    "H&K": "H and K",
    "H&M": "H and M",
    "H&M's": "H and M's",
    "H&R": "H and R",
    "H. A.": "HA",
    "H. B.": "HB",
    "H. C.": "HC",
    "H. D.": "HD",
    "H. E.": "HE",
    "H. F.": "HF",
    "H. G.": "HG",
    "H. H.": "HH",
    "H. I.": "HI",
    "H. J.": "HJ",
    "H. K.": "HK",
    "H. L.": "HL",
    "H. M.": "HM",
    "H. N.": "HN",
    "H. O.": "HO",
    "H. P.": "HP",
    "H. R.": "HR",
    "H. S.": "HS",
    "H. T.": "HT",
    "H. U.": "HU",
    "H. V.": "HV",
    "H. W.": "HW",
    "H. Y.": "HY",
    "H. Z.": "HZ",
    "H.A.": "HA",
    "H.B.": "HB",
    "H.C.": "HC",
    "H.D.": "HD",
    "H.E.": "HE",
    "H.F.": "HF",
    "H.G.": "HG",
    "H.H.": "HH",
    "H.I.": "HI",
    "H.J.": "HJ",
    "H.K.": "HK",
    "H.L.": "HL",
    "H.M.": "HM",
    "H.N.": "HN",
    "H.O.": "HO",
    "H.P.": "HP",
    "H.Q.": "HQ",
    "H.R.": "HR",
    "H.S.": "HS",
    "H.T.": "HT",
    "H.V.": "HV",
    "H.W.": "HW",
    "H.Y.": "HY",
    "HBCo": "HBCO",
    "HBGAs": "HBGA's",
    "HCEs": "HCE's",
    "HCPs": "HCP's",
    "HClO": "HCLO",
    "HCoV": "HCOV",
    "HDDs": "HDD's",
    "HDi": "HDI",
    "HGPs": "HGP's",
    "HGVs": "HGV's",
    "HMOs": "HMO's",
    "HRo": "HRO",
    "HRs": "HR's",
    "HSPs": "HSP's",
    "HSTs": "HST's",
    "HTAs": "HTA's",
    "HTRs": "HTR's",
    "HVAC": "H-vac",
    "HVCs": "HVC's",
    "HZ&PC": "HZ and PC",
    "Hcy": "HCY",
    "Hdad": "HDAD",
    "Hezb": "HEZB",
    "HgO": "HGO",
    "HgU": "HGU",
    "Hizb": "HIZB",
    "Hkam": "HKAM",
    "Hla": "HLA",
    "Hluk": "HLUK",
    "Hly": "HLY",
    "Hman": "HMAN",
    "Hon.": "Honorable",
    "Hs": "H's",
    "Hsee": "HSEE",
    "Htin": "HTIN",
    "Htoo": "HTOO",
    "HtrA": "HTRA",
    "Htwa": "HTWA",
    "Hvem": "HVEM",
    "Hwy": "HWY",
    "I&C": "I and C",
    "I&M": "I and M",
    "I. A.": "IA",
    "I. B.": "IB",
    "I. C.": "IC",
    "I. D.": "ID",
    "I. H.": "IH",
    "I. I.": "II",
    "I. J.": "IJ",
    "I. L.": "IL",
    "I. M.": "IM",
    "I. N.": "IN",
    "I. R.": "IR",
    "I. S.": "IS",
    "I. V.": "IV",
    "I. W.": "IW",
    "I. Y.": "IY",
    "I.A.": "IA",
    "I.B.": "IB",
    "I.C.": "IC",
    "I.D.": "ID",
    "I.G.": "IG",
    "I.I.": "II",
    "I.K.": "IK",
    "I.L.": "IL",
    "I.M.": "IM",
    "I.N.": "IN",
    "I.O.'s": "IO's",
    "I.P.": "IP",
    "I.Q.": "IQ",
    "I.R.": "IR",
    "I.S.": "IS",
    "I.T.": "IT",
    "I.V.": "IV",
    "I.Y.": "IY",
    "I/O": "IO",
    "I/Os": "IO's",
    "IACTs": "IACT's",
    "IAUCs": "IAUC's",
    "IBCs": "IBC's",
    "IBDA'A": "IBDAA",
    "ICBMs": "ICBM's",
    "ICTVdB": "ICTVDB",
    "ICTs": "ICT's",
    "ICs": "IC's",
    "ICv": "ICV",
    "ID'd": "IDD",
    "IDLHs": "IDLH's",
    "IDPs": "IDP's",
    "IDs": "ID's",
    "IDx": "IDX",
    "IFIs": "IFI's",
    "IFNs": "IFN's",
    "IFRSs": "IFRS's",
    "IGFs": "IGF's",
    "IIGs": "IIG's",
    "IIIBy": "IIIBY",
    "IIIb": "IIIB",
    "IIIc": "IIIC",
    "IIId": "IIID",
    "IIb": "IIB",
    "IIc": "IIC",
    "IIfx": "IIFX",
    "IIga": "IIGA",
    "IIgs": "IIG's",
    "IKr": "IKR",
    "IL&FS": "IL and FS",
    "IMDb": "IMDB",
    "IMDb.": "IMDB",
    "IMbd": "IMBD",
    "INTs": "INT's",
    "IODs": "IOD's",
    "IOPs": "IOP's",
    "IPCs": "IPC's",
    "IPPs": "IPP's",
    "IPs": "IP's",
    "IPv": "IPV",
    "IRs": "IR's",
    "ISAv": "ISAV",
    "ISBNs": "ISBN's",
    "ISMNs": "ISMN's",
    "ISPs": "ISP's",
    "ISSNs": "ISSN's",
    "ITHs": "ITH's",
    "ITNNs": "ITNN's",
    "IUDs": "IUD's",
    "IVs": "IV's",
    "IWBs": "IWB's",
    "IXBs": "IXB's",
    "IXCs": "IXC's",
    "IXb": "IXB",
    "IXe": "IXE",
    "IaaS": "IAAS",
    "Iaca": "IACA",
    "Iacob": "IACOB",
    "Iacub": "IACUB",
    "Iapa": "IAPA",
    "Iar": "IAR",
    "Iax": "IAX",
    "Ibac": "IBAC",
    "Ibaes": "IBAE's",
    "Ibda": "IBDA",
    "Ibm": "IBM",
    "Ibne": "IBNE",
    "Ibra": "IBRA",
    "Ibs": "IB's",
    "Ibsa": "IBSA",
    "Ibu": "IBU",
    "Ic": "IC",
    "IcRn": "ICRN",
    "Icche": "ICCHE",
    "Ici": "ICI",
    "Ico": "ICO",
    "Idd": "IDD",
    "Iddaa": "IDDAA",
    "Idi": "IDI",
    "Idir": "IDIR",
    "Idm": "IDM",
    "IfF": "IFF",
    "IfM": "IFM",
    "Ifa": "IFA",
    "Ifft": "IFFT",
    "Ifi": "IFI",
    "Ifni": "IFNI",
    "Ifop": "IFOP",
    "Ig": "IG",
    "IgA": "IGA",
    "IgM": "IGM",
    "Iga": "IGA",
    "Ign": "IGN",
    "Ih": "IH",
    "Ihn": "IHN",
    "Ihor": "IHOR",
    "Iht": "IHT",
    "Iiga": "IIGA",
    "Ija": "IJA",
    "Ijok": "IJOK",
    "Ijui": "IJUI",
    "Ikh": "IKH",
    "Iksa": "IKSA",
    "Iku": "IKU",
    "Ilbe": "ILBE",
    "Ili": "ILI",
    "Ilm": "ILM",
    "Ilu": "ILU",
    "Iml": "IML",
    "Imm": "IMM",
    "Imms'": "IMM's",
    "Impr": "IMPR",
    "Imst": "IMST",
    "InP": "INP",
    "Inba": "INBA",
    "Ind": "IND",
    "Infs": "INF's",
    "InlB": "INLB",
    "Inre": "INRE",
    "Inspx": "INSPX",
    "Ints": "INT's",
    "Intu": "INTU",
    "Io": "IO",
    "Io's": "IO's",
    "Io.": "IO",
    "IoM": "IOM",
    "IoT": "IOT",
    "IoW": "IOW",
    "Ioba": "IOBA",
    "Iok": "IOK",
    "Ioka": "IOKA",
    "Iosu": "IOSU",
    "Ip": "IP",
    "Ipo": "IPO",
    "Ippu": "IPPU",
    "Ir": "IR",
    "Irgm": "IRGM",
    "Irig": "IRIG",
    "Iril": "IRIL",
    "Irla": "IRLA",
    "Irmis": "IRMI's",
    "Iro": "IRO",
    "Irra": "IRRA",
    "Iru": "IRU",
    "Isba": "ISBA",
    "Isc": "ISC",
    "Isd": "ISD",
    "Isgec": "ISGEC",
    "Ishq": "ISHQ",
    "Isl": "ISL",
    "Isra": "ISRA",
    "Isra'il": "ISRAIL",
    "Iss": "IS's",
    "Isu": "ISU",
    "Ite": "ITE",
    "Iti": "ITI",
    "Itk": "ITK",
    "Itoi": "ITOI",
    "Itse": "ITSE",
    "Itu": "ITU",
    "Itz": "ITZ",
    "Iucn": "IUCN",
    "Iuz": "IUZ",
    "Ivu": "IVU",
    "Iwas": "IWA's",
    "Iwaz": "IWAZ",
    "Iwuh": "IWUH",
    "Iya": "IYA",
    "Iyar": "IYAR",
    "Iyi": "IYI",
    "J&B": "J and B",
    "J&D's": "J and D's",
    "J&J": "J and J",
    "J&K": "J and K",
    "J&P": "J and P",
    "J&R": "J and R",
    "J&T": "J and T",
    "J&V": "J and V",
    "J. A.": "JA",
    "J. B.": "JB",
    "J. C.": "JC",
    "J. D.": "JD",
    "J. E.": "JE",
    "J. F.": "JF",
    "J. G.": "JG",
    "J. H.": "JH",
    "J. I.": "JI",
    "J. J.": "JJ",
    "J. K.": "JK",
    "J. L.": "JL",
    "J. M.": "JM",
    "J. N.": "JN",
    "J. O.": "JO",
    "J. R.": "JR",
    "J. S.": "JS",
    "J. T.": "JT",
    "J. U.": "JU",
    "J. V.": "JV",
    "J. W.": "JW",
    "J. Y.": "JY",
    "J. Z.": "JZ",
    "J.B.": "JB",
    "J.C.": "JC",
    "J.D.": "JD",
    "J.D.s": "JD's",
    "J.E.": "JE",
    "J.F.": "JF",
    "J.G.": "JG",
    "J.H.": "JH",
    "J.I.": "JI",
    "J.J.": "JJ",
    "J.K.": "JK",
    "J.L.": "JL",
    "J.M.": "JM",
    "J.N.": "JN",
    "J.O.": "JO",
    "J.P.": "JP",
    "J.Q.": "JQ",
    "J.R.": "JR",
    "J.R.'s": "JR's",
    "J.S.": "JS",
    "J.T.": "JT",
    "J.V.": "JV",
    "J.W.": "JW",
    "J.Y.": "JY",
    "J.Z.": "JZ",
    "JCRs": "JCR's",
    "JHSVs": "JHSV's",
    "JHs": "JH's",
    "JHud": "JHUD",
    "JT&KW": "JT and KW",
    "Jaf": "JAF",
    "JdeBP": "JDEBP",
    "Jka": "JKA",
    "Jno": "JNO",
    "Jr": "junior",
    "Jr.": "junior",
    "Js": "J's",
    "Jwa": "JWA",
    "Jym": "JYM",
    "Jymn": "JYMN",
    "K&B": "K and B",
    "K&D": "K and D",
    "K&M": "K and M",
    "K&N": "K and N",
    "K&P": "K and P",
    "K. A.": "KA",
    "K. B.": "KB",
    "K. C.": "KC",
    "K. D.": "KD",
    "K. D.'s": "KD's",
    "K. E.": "KE",
    "K. H.": "KH",
    "K. I.": "KI",
    "K. J.": "KJ",
    "K. K.": "KK",
    "K. L.": "KL",
    "K. M.": "KM",
    "K. N.": "KN",
    "K. O.": "KO",
    "K. P.": "KP",
    "K. R.": "KR",
    "K. S.": "KS",
    "K. T.": "KT",
    "K. U.": "KU",
    "K. V.": "KV",
    "K. Z.": "KZ",
    "K.A.": "KA",
    "K.B.": "KB",
    "K.C.": "KC",
    "K.C.'s": "KC's",
    "K.D.": "KD",
    "K.D.'s": "KD's",
    "K.E.": "KE",
    "K.F.": "KF",
    "K.H.": "KH",
    "K.I.": "KI",
    "K.J.": "KJ",
    "K.K.": "KK",
    "K.L.": "KL",
    "K.M.": "KM",
    "K.N.": "KN",
    "K.O.": "KO",
    "K.P.": "KP",
    "K.R.": "KR",
    "K.R.I.T.'s": "KRIT's",
    "K.S.": "KS",
    "K.T.": "KT",
    "K.U.": "KU",
    "K.V.": "KV",
    "KJo's": "KJO's",
    "KPIs": "KPI's",
    "KRCs": "KRC's",
    "KT&K": "KT and K",
    "Ke": "KE",
    "KgU": "KGU",
    "Khizr": "KHIZR",
    "Khlav": "KHLAV",
    "Khmu": "KHMU",
    "Khri": "KHRI",
    "Khru": "KHRU",
    "Kjer": "KJER",
    "Kjop": "KJOP",
    "Kle": "KLE",
    "Kppen": "KPPEN",
    "Krka": "KRKA",
    "Krne": "KRNE",
    "Kroz": "KROZ",
    "Kru": "KRU",
    "Kseur": "KSEUR",
    "Ksevt": "KSEVT",
    "Ktav": "KTAV",
    "Kuaa": "KUAA",
    "Kud": "KUD",
    "Kutb": "KUTB",
    "Kvik": "KVIK",
    "Kvit": "KVIT",
    "Kvyat": "KVYAT",
    "Kyse": "KYSE",
    "Kyt": "KYT",
    "L&L": "L and L",
    "L&N": "L and N",
    "L&P": "L and P",
    "L&PM": "L and PM",
    "L&T": "L and T",
    "L&YR": "L and YR",
    "L. A.": "LA",
    "L. B.": "LB",
    "L. C.": "LC",
    "L. D.": "LD",
    "L. E.": "LE",
    "L. F.": "LF",
    "L. G.": "LG",
    "L. H.": "LH",
    "L. I.": "LI",
    "L. J.": "LJ",
    "L. K.": "LK",
    "L. L.": "LL",
    "L. M.": "LM",
    "L. N.": "LN",
    "L. O.": "LO",
    "L. P.": "LP",
    "L. R.": "LR",
    "L. S.": "LS",
    "L. T.": "LT",
    "L. U.": "LU",
    "L. V.": "LV",
    "L. W.": "LW",
    "L.A.'s": "LA's",
    "L.B.": "LB",
    "L.C.": "LC",
    "L.D.": "LD",
    "L.E.": "LE",
    "L.F.": "LF",
    "L.G.": "LG",
    "L.H.": "LH",
    "L.I.": "LI",
    "L.J.": "LJ",
    "L.L.": "LL",
    "L.M.": "LM",
    "L.N.": "LN",
    "L.O.": "LO",
    "L.O.C.'s": "LOC's",
    "L.P.": "LP",
    "L.R.": "LR",
    "L.S.": "LS",
    "L.T.": "LT",
    "L.V.": "LV",
    "L.W.": "LW",
    "L.Y.": "LY",
    "LBPs": "LBP's",
    "LBi": "LBI",
    "LC&DR": "LC and DR",
    "LCAs": "LCA's",
    "LCCs": "LCC's",
    "LCDs": "LCD's",
    "LCIs": "LCI's",
    "LCSs": "LCS's",
    "LCTs": "LCT's",
    "LCVPs": "LCVP's",
    "LDCs": "LDC's",
    "LFFCs": "LFFC's",
    "LFSRs": "LFSR's",
    "LFs": "LF's",
    "LG&RDD": "LG and RDD",
    "LGMs": "LGM's",
    "LGUs": "LGU's",
    "LGVs": "LGV's",
    "LGs": "LG's",
    "LMGs": "LMG's",
    "LMPs": "LMP's",
    "LMQs": "LMQ's",
    "LPARs": "LPAR's",
    "LPMud": "LPMUD",
    "LPThe": "LPTHE",
    "LPs": "LP's",
    "LRTs": "LRT's",
    "LRVs": "LRV's",
    "LSDs": "LSD's",
    "LSTs": "LST's",
    "LSVCCs": "LSVCC's",
    "LSi": "LSI",
    "Lay's": "LAY's",
    "Lda": "LDA",
    "Lha": "LHA",
    "Lje": "LJE",
    "Llapi": "LLAPI",
    "LnAIB": "LNAIB",
    "Lokk": "LOKK",
    "Ls": "L's",
    "Lt.": "lieutenant",
    "Ltd.": "limited",
    "Ltda": "LTDA",
    "M&A": "M and A",
    "M&G": "M and G",
    "M&GN": "M and GN",
    "M&GR's": "M and GR's",
    "M&H": "M and H",
    "M&I": "M and I",
    "M&J": "M and J",
    "M&L": "M and L",
    "M&M": "M and M",
    "M&M's": "M and M's",
    "M&NF": "M and NF",
    "M&P": "M and P",
    "M&S": "M and S",
    "M&T": "M and T",
    "M. A.": "MA",
    "M. B.": "MB",
    "M. C.": "MC",
    "M. D.": "MD",
    "M. E.": "ME",
    "M. F.": "MF",
    "M. G.": "MG",
    "M. H.": "MH",
    "M. I.": "MI",
    "M. J.": "MJ",
    "M. K.": "MK",
    "M. L.": "ML",
    "M. M.": "MM",
    "M. N.": "MN",
    "M. O.": "MO",
    "M. P.": "MP",
    "M. Q.": "MQ",
    "M. R.": "MR",
    "M. S.": "MS",
    "M. T.": "MT",
    "M. U.": "MU",
    "M. V.": "MV",
    "M. W.": "MW",
    "M. X.": "MX",
    "M. Y.": "MY",
    "M. Z.": "MZ",
    "M.A.": "MA",
    "M.B.": "MB",
    "M.C.": "MC",
    "M.D.": "MD",
    "M.E.": "ME",
    "M.F.": "MF",
    "M.G.": "MG",
    "M.H.": "MH",
    "M.I.": "MI",
    "M.I.A.'s": "MIA's",
    "M.J.": "MJ",
    "M.K.": "MK",
    "M.L.": "ML",
    "M.M.": "MM",
    "M.N.": "MN",
    "M.O.": "MO",
    "M.O.G.U.E.R.A.'s": "MOGUERA's",
    "M.P.": "MP",
    "M.P.'s": "MP's",
    "M.R.": "MR",
    "M.S.": "MS",
    "M.T.": "MT",
    "M.U.s": "MU's",
    "M.V.": "MV",
    "M.W.": "MW",
    "M.Y.": "MY",
    "MCCs": "MCC's",
    "MCs": "MC's",
    "MD&DI": "MD and DI",
    "MDCs": "MDC's",
    "MDGs": "MDG's",
    "MDHUs": "MDHU's",
    "MDic": "MDIC",
    "MFDs": "MFD's",
    "MFTs": "MFT's",
    "MFe": "MFE",
    "MGen": "MGEN",
    "MH&L": "MH and L",
    "MHCs": "MHC's",
    "MKs": "MK's",
    "MLAs": "MLA's",
    "MLCs": "MLC's",
    "MLPs": "MLP's",
    "MM&A": "MM and A",
    "MNCs": "MNC's",
    "MP&I": "MP and I",
    "MPAs": "MPA's",
    "MPBu": "MPBU",
    "MPLMs": "MPLM's",
    "MPPs": "MPP's",
    "MPThe": "MPTHE",
    "MPi": "MPI",
    "MPs": "MP's",
    "MR&LE": "MR and LE",
    "MRBs": "MRB's",
    "MRTs": "MRT's",
    "MSPs": "MSP's",
    "MTAs": "MTA's",
    "MTVu": "MTVU",
    "MVMs": "MVM's",
    "MVPs": "MVP's",
    "MVs": "MV's",
    "MWe": "MWE",
    "Maj.": "Major",
    "Mbewu": "MBEWU",
    "Mbre": "MBRE",
    "Mde": "MDE",
    "Mga": "MGA",
    "Mgadla": "MGADLA",
    "Mgal": "MGAL",
    "Mgbo": "MGBO",
    "Mha": "MHA",
    "Mhor": "MHOR",
    "Mhow": "MHOW",
    "Mlle": "MLLE",
    "Mon": "Monday",
    "MpA": "MPA",
    "Mpu": "MPU",
    "Mr": "Mister",
    "Mr.": "Mister",
    "Mra": "MRA",
    "Mrs": "Misses",
    "Mrs.": "Misses",
    "Ms": "Miss",
    "Ms.": "Miss",
    "Mse": "MSE",
    "Mt.": "Mount",
    "Mta": "MTA",
    "Mtor": "MTOR",
    "MyDD": "MYDD",
    "MySQL": "MYSQL",
    "Myc": "MYC",
    "N&W": "N and W",
    "N'I": "NI",
    "N'Zi": "NZI",
    "N'Zif": "NZIF",
    "N. A.": "NA",
    "N. B.": "NB",
    "N. C.": "NC",
    "N. D.": "ND",
    "N. E.": "NE",
    "N. F.": "NF",
    "N. G.": "NG",
    "N. H.": "NH",
    "N. I.": "NI",
    "N. J.": "NJ",
    "N. K.": "NK",
    "N. L.": "NL",
    "N. M.": "NM",
    "N. N.": "NN",
    "N. P.": "NP",
    "N. Q.": "NQ",
    "N. R.": "NR",
    "N. S.": "NS",
    "N. T.": "NT",
    "N. V.": "NV",
    "N. W.": "NW",
    "N. Y.": "NY",
    "N.A.": "NA",
    "N.B.": "NB",
    "N.B.A.'s": "NBA's",
    "N.C.": "NC",
    "N.D.": "ND",
    "N.E.": "NE",
    "N.F.": "NF",
    "N.G.": "NG",
    "N.H.": "NH",
    "N.I.": "NI",
    "N.J.": "NJ",
    "N.J.'s": "NJ's",
    "N.K.": "NK",
    "N.L.": "NL",
    "N.M.": "NM",
    "N.N.": "NN",
    "N.P.": "NP",
    "N.R.": "NR",
    "N.S.": "NS",
    "N.T.": "NT",
    "N.U.": "NU",
    "N.V.": "NV",
    "N.W.": "NW",
    "N.Y.": "NY",
    "N.Z.": "NZ",
    "NBAs": "NBA's",
    "NBTwo": "NBTWO",
    "NCAAs": "NCAA's",
    "NCCs": "NCC's",
    "NCOs": "NCO's",
    "NFATc": "NFATC",
    "NGOs": "NGO's",
    "NHCEs": "NHCE's",
    "NHCs": "NHC's",
    "NHM&W": "NHM and W",
    "NHPs": "NHP's",
    "NLRs": "NLR's",
    "NO.": "number",
    "NPCs": "NPC's",
    "NPMs": "NPM's",
    "NPs": "NP's",
    "NRIs": "NRI's",
    "NRJs": "NRJ's",
    "NSOs": "NSO's",
    "NZiK": "NZIK",
    "Nge": "NGE",
    "Nha": "NHA",
    "Njoo": "NJOO",
    "No.": "number",
    "Nri": "NRI",
    "Nta": "NTA",
    "NvDA's": "NVDA's",
    "O&G": "O and G",
    "O&K": "O and K",
    "O&MFL": "O and MFL",
    "O&O": "O and O",
    "O. A.": "OA",
    "O. C.": "OC",
    "O. D.": "OD",
    "O. G.": "OG",
    "O. H.": "OH",
    "O. I.": "OI",
    "O. J.": "OJ",
    "O. K.": "OK",
    "O. L.": "OL",
    "O. M.": "OM",
    "O. N.": "ON",
    "O. O.": "OO",
    "O. P.": "OP",
    "O. R.": "OR",
    "O. S.": "OS",
    "O. V.": "OV",
    "O. W.": "OW",
    "O.A.": "OA",
    "O.B.": "OB",
    "O.C.": "OC",
    "O.E.": "OE",
    "O.F.": "OF",
    "O.G.": "OG",
    "O.H.": "OH",
    "O.I.": "OI",
    "O.J.": "OJ",
    "O.K.": "OK",
    "O.L.": "OL",
    "O.M.": "OM",
    "O.N.": "ON",
    "O.O.": "OO",
    "O.P.": "OP",
    "O.S.": "OS",
    "O.T.": "OT",
    "O.U.": "OU",
    "O.V.": "OV",
    "O.W.": "OW",
    "OK'd": "OKD",
    "OKd": "OKD",
    "OLs": "OL's",
    "OMGs": "OMG's",
    "OPMs": "OPM's",
    "OR&N": "OR and N",
    "ORFs": "ORF's",
    "OSBs": "OSB's",
    "OSTs": "OST's",
    "OTs": "OT's",
    "OWCs": "OWC's",
    "Oblt": "OBLT",
    "Octl": "OCTL",
    "Oke": "OKE",
    "Olo": "OLO",
    "Olov": "OLOV",
    "Om's": "OM's",
    "OmOm": "OMOM",
    "Oo's": "OO's",
    "Oop": "OOP",
    "Ootw": "OOTW",
    "Opr": "OPR",
    "Osa": "OSA",
    "Otu": "OTU",
    "Ov": "OV",
    "Ovca": "OVCA",
    "Ovda": "OVDA",
    "Ovo": "OVO",
    "P&D": "P and D",
    "P&G": "P and G",
    "P&H": "P and H",
    "P&I": "P and I",
    "P&O": "P and O",
    "P&PH": "P and PH",
    "P&W": "P and W",
    "P'Twa": "PTWA",
    "P. A.": "PA",
    "P. B.": "PB",
    "P. C.": "PC",
    "P. D.": "PD",
    "P. E.": "PE",
    "P. G.": "PG",
    "P. H.": "PH",
    "P. I.": "PI",
    "P. J.": "PJ",
    "P. K.": "PK",
    "P. L.": "PL",
    "P. M.": "PM",
    "P. N.": "PN",
    "P. O.": "PO",
    "P. P.": "PP",
    "P. R.": "PR",
    "P. S.": "PS",
    "P. T.": "PT",
    "P. V.": "PV",
    "P. W.": "PW",
    "P. Y.": "PY",
    "P. Z.": "PZ",
    "P. s": "P's",
    "P.'s": "P's",
    "P.A.": "PA",
    "P.B.": "PB",
    "P.C.": "PC",
    "P.C.s": "PC's",
    "P.D.": "PD",
    "P.E.": "PE",
    "P.E.I.'s": "PEI's",
    "P.G.": "PG",
    "P.H.": "PH",
    "P.I.": "PI",
    "P.J.": "PJ",
    "P.K.": "PK",
    "P.L.": "PL",
    "P.M.": "PM",
    "P.N.": "PN",
    "P.O.": "PO",
    "P.O.D.'s": "POD's",
    "P.O.W.'s": "POW's",
    "P.P.": "PP",
    "P.R.": "PR",
    "P.S.": "PS",
    "P.T.": "PT",
    "P.V.": "PV",
    "P.W.": "PW",
    "PCBs": "PCB's",
    "PCDDs": "PCDD's",
    "PCIe": "PCIE",
    "PCRev": "PCREV",
    "PCeU": "PCEU",
    "PD&D": "PD and D",
    "PDAs": "PDA's",
    "PDBsum": "PDBSUM",
    "PDCs": "PDC's",
    "PDEs": "PDE's",
    "PDFs": "PDF's",
    "PDPs": "PDP's",
    "PDs": "PD's",
    "PFW&C": "PFW and C",
    "PFs": "PF's",
    "PG&N": "PG and N",
    "PGMs": "PGM's",
    "PHPs": "PHP's",
    "PJs": "PJ's",
    "PLCs": "PLC's",
    "PMMoV": "PMMOV",
    "PMs": "PM's",
    "PNETs": "PNET's",
    "PNEs": "PNE's",
    "PNNs": "PNN's",
    "PNaCl": "PNACL",
    "PNoy": "PNOY",
    "PPVs": "PPV's",
    "PPi": "PPI",
    "PPy": "PPY",
    "PSSAs": "PSSA's",
    "PTAs": "PTA's",
    "PTEs": "PTE's",
    "PTLs": "PTL's",
    "PTTs": "PTT's",
    "PVAs": "PVA's",
    "PVs": "PV's",
    "PcoA": "PCOA",
    "Ph.D.": "PHD",
    "Phlo": "PHLO",
    "Piz": "PIZ",
    "Pnau": "PNAU",
    "Ps": "P's",
    "Pte": "PTE",
    "Ptie": "PTIE",
    "Ptol": "PTOL",
    "Puiu": "PUIU",
    "Pul": "PUL",
    "PvdA": "PVDA",
    "PyL": "PYL",
    "Pyi": "PYI",
    "Pyk": "PYK",
    "Pyl": "PYL",
    "Pyu": "PYU",
    "Pyw": "PYW",
    "Pyx": "PYX",
    "Q&A": "Q and A",
    "Q&A's": "Q and A's",
    "Q&As": "Q and A's",
    "Q. A.": "QA",
    "Q. E.": "QE",
    "Q. J.": "QJ",
    "Q. N.": "QN",
    "Q.B.": "QB",
    "Q.C.": "QC",
    "Q.H.": "QH",
    "Q.I.": "QI",
    "Q.V.": "QV",
    "QPOs": "QPO's",
    "QbA": "QBA",
    "R&A": "R and A",
    "R&AW": "R and AW",
    "R&B": "R and B",
    "R&C": "R and C",
    "R&D": "R and D",
    "R&G": "R and G",
    "R&I": "R and I",
    "R&R": "R and R",
    "R. A.": "RA",
    "R. B.": "RB",
    "R. C.": "RC",
    "R. D.": "RD",
    "R. E.": "RE",
    "R. F.": "RF",
    "R. G.": "RG",
    "R. H.": "RH",
    "R. I.": "RI",
    "R. J.": "RJ",
    "R. K.": "RK",
    "R. L.": "RL",
    "R. M.": "RM",
    "R. N.": "RN",
    "R. O.": "RO",
    "R. P.": "RP",
    "R. Q.": "RQ",
    "R. R.": "RR",
    "R. S.": "RS",
    "R. T.": "RT",
    "R. U.": "RU",
    "R. V.": "RV",
    "R. W.": "RW",
    "R. Z.": "RZ",
    "R.A.": "RA",
    "R.B.": "RB",
    "R.C.": "RC",
    "R.D.": "RD",
    "R.E.": "RE",
    "R.E.M.'s": "REM's",
    "R.F.": "RF",
    "R.G.": "RG",
    "R.H.": "RH",
    "R.I.": "RI",
    "R.J.": "RJ",
    "R.K.": "RK",
    "R.L.": "RL",
    "R.M.": "RM",
    "R.N.": "RN",
    "R.O.": "RO",
    "R.P.": "RP",
    "R.Q.": "RQ",
    "R.R.": "RR",
    "R.S.": "RS",
    "R.T.": "RT",
    "R.U.": "RU",
    "R.V.": "RV",
    "R.W.": "RW",
    "RBCs": "RBC's",
    "RBIs": "RBI's",
    "RCTs": "RCT's",
    "REPLs": "REPL's",
    "RHIBs": "RHIB's",
    "RMDs": "RMD's",
    "RMLs": "RML's",
    "RMSDs": "RMSD's",
    "RMs": "RM's",
    "RNAs": "RNA's",
    "RNNs": "RNN's",
    "RNPs": "RNP's",
    "ROVs": "ROV's",
    "RP&C": "RP and C",
    "RPGs": "RPG's",
    "RPs": "RP's",
    "RSpec": "RSPEC",
    "RSu": "RSU",
    "RTCs": "RTC's",
    "RTEjr": "RTEJR",
    "RTOs": "RTO's",
    "RTVFBiH": "RTVFBIH",
    "RTeOR": "RTEOR",
    "RWEs": "RWE's",
    "RbAg": "RBAG",
    "RdE": "RDE",
    "Rev.": "Reverend",
    "Rhiw": "RHIW",
    "Rho's": "RHO's",
    "RhoG": "RHOG",
    "Riu": "RIU",
    "Rivu": "RIVU",
    "Rixt": "RIXT",
    "Rnet": "RNET",
    "Rnic": "RNIC",
    "Rooi": "ROOI",
    "Roxb": "ROXB",
    "Roxx": "ROXX",
    "Rpe": "RPE",
    "Rreli": "RRELI",
    "Rs": "R's",
    "Rsis": "RSI's",
    "RsmA": "RSMA",
    "Ruao": "RUAO",
    "Ruk": "RUK",
    "Rukn": "RUKN",
    "Rup": "RUP",
    "Rupf": "RUPF",
    "Rupr": "RUPR",
    "RutB": "RUTB",
    "Ruu": "RUU",
    "Ruwa": "RUWA",
    "Ruy": "RUY",
    "Ruyt": "RUYT",
    "Rvat": "RVAT",
    "Rvo": "RVO",
    "Rwa": "RWA",
    "Rxa": "RXA",
    "S&L": "S and L",
    "S&M": "S and M",
    "S&P": "S and P",
    "S&P 500": "S and P five  hundred",
    "S&S": "S and S",
    "S&T": "S and T",
    "S&W": "S and W",
    "S. A.": "SA",
    "S. B.": "SB",
    "S. C.": "SC",
    "S. D.": "SD",
    "S. E.": "SE",
    "S. F.": "SF",
    "S. G.": "SG",
    "S. H.": "SH",
    "S. I.": "SI",
    "S. J.": "SJ",
    "S. K.": "SK",
    "S. L.": "SL",
    "S. M.": "SM",
    "S. N.": "SN",
    "S. O.": "SO",
    "S. P.": "SP",
    "S. Q.": "SQ",
    "S. R.": "SR",
    "S. S.": "SS",
    "S. T.": "ST",
    "S. U.": "SU",
    "S. V.": "SV",
    "S. W.": "SW",
    "S. Y.": "SY",
    "S. Z.": "SZ",
    "S. s": "S's",
    "S.A.": "SA",
    "S.B.": "SB",
    "S.C.": "SC",
    "S.D.": "SD",
    "S.E.": "SE",
    "S.E.S.'s": "SES's",
    "S.F.": "SF",
    "S.F.'s": "SF's",
    "S.G.": "SG",
    "S.H.": "SH",
    "S.H.I.E.L.D.'s": "SHIELD's",
    "S.I.": "SI",
    "S.J.": "SJ",
    "S.K.": "SK",
    "S.L.": "SL",
    "S.L.A.A.'s": "SLAA's",
    "S.M.": "SM",
    "S.M.'s": "SM's",
    "S.N.": "SN",
    "S.O.": "SO",
    "S.P.": "SP",
    "S.R.": "SR",
    "S.S.": "SS",
    "S.T.": "ST",
    "S.V.": "SV",
    "S.W.": "SW",
    "S.X.": "SX",
    "S.Y.": "SY",
    "SBCs": "SBC's",
    "SCRs": "SCR's",
    "SD&AE": "SD and AE",
    "SDG&E": "SDG and E",
    "SDSM&T's": "SDSM and T's",
    "SEs": "SE's",
    "SFFCo": "SFFCO",
    "SG&A": "SG and A",
    "SGSNs": "SGSN's",
    "SLAs": "SLA's",
    "SLS&E": "SLS and E",
    "SMEs": "SME's",
    "SMPSs": "SMPS's",
    "SMe": "SME",
    "SMs": "SMS",
    "SNESjr": "SNESJR",
    "SNPs": "SNP's",
    "SPCAs": "SPCA's",
    "SPDR": "spider",
    "SPUs": "SPU's",
    "SPs": "SP's",
    "SRAs": "SRA's",
    "SRBs": "SRB's",
    "SRGs": "SRG's",
    "SRLGs": "SRLG's",
    "SRMs": "SRM's",
    "SSAs": "SSA's",
    "SSDs": "SSD's",
    "SSRIs": "SSRI's",
    "SSoSV": "SSOSV",
    "ST&AJ": "ST and AJ",
    "STDs": "STD's",
    "STGs": "STG's",
    "STIs": "STI's",
    "STScI": "STSCI",
    "STi": "STI",
    "SUTs": "SUT's",
    "SUVs": "SUV's",
    "SVMs": "SVM's",
    "SVTs": "SVT's",
    "Sa'id": "SAID",
    "Sa'yo": "SAYO",
    "Sat": "Saturday",
    "Saxl": "SAXL",
    "Sbai": "SBAI",
    "Sborz": "SBORZ",
    "Sbu": "SBU",
    "Scuf": "SCUF",
    "Scymn": "SCYMN",
    "Sde": "SDE",
    "Sdei": "SDEI",
    "Sejms": "SEJM's",
    "Sek": "SEK",
    "Sekl": "SEKL",
    "Ses": "SE's",
    "Seyh": "SEYH",
    "Sfax": "SFAX",
    "Sgip": "SGIP",
    "Sgt.": "sergeant",
    "Shma": "SHMA",
    "Sjon": "SJON",
    "SmI": "SMI",
    "Smyl": "SMYL",
    "SnO2": "tin four oxide",
    "SnSe": "SNSE",
    "Sos": "SO's",
    "Sov": "SOV",
    "Sovn": "SOVN",
    "SpPIn": "SPPIN",
    "Spe": "SPE",
    "Spoa": "SPOA",
    "Sra": "SRA",
    "Srba": "SRBA",
    "Srbi": "SRBI",
    "Srhir": "SRHIR",
    "Srni": "SRNI",
    "Srul": "SRUL",
    "Ss": "S's",
    "Ssu": "SSU",
    "Ssy": "SSY",
    "Stryj": "STRYJ",
    "Sun": "Sunday",
    "Suo": "SUO",
    "Susz": "SUSZ",
    "Suu": "SUU",
    "Suy": "SUY",
    "Svac": "SVAC",
    "Sve": "SVE",
    "SwRI": "SWRI",
    "Swe": "SWE",
    "SyT": "SYT",
    "Sys": "SY's",
    "SysML": "SYSML",
    "SysRq": "SYSRQ",
    "SysV": "SYSV",
    "Syxx": "SYXX",
    "SzMME": "SZMME",
    "Szasz": "SZASZ",
    "Szer": "SZER",
    "Szklo": "SZKLO",
    "Szlak": "SZLAK",
    "Szpir": "SZPIR",
    "Szu": "SZU",
    "Szyk": "SZYK",
    "T&A": "T and A",
    "T&F": "T and F",
    "T&T": "T and T",
    "T'uqu": "TUQU",
    "T. A.": "TA",
    "T. B.": "TB",
    "T. C.": "TC",
    "T. D.": "TD",
    "T. E.": "TE",
    "T. F.": "TF",
    "T. G.": "TG",
    "T. H.": "TH",
    "T. J.": "TJ",
    "T. K.": "TK",
    "T. L.": "TL",
    "T. M.": "TM",
    "T. N.": "TN",
    "T. O.": "TO",
    "T. P.": "TP",
    "T. R.": "TR",
    "T. S.": "TS",
    "T. T.": "TT",
    "T. V.": "TV",
    "T. W.": "TW",
    "T.A.": "TA",
    "T.B.": "TB",
    "T.C.": "TC",
    "T.D.": "TD",
    "T.E.": "TE",
    "T.F.": "TF",
    "T.G.": "TG",
    "T.H.": "TH",
    "T.I.": "TI",
    "T.I.'s": "TI's",
    "T.J.": "TJ",
    "T.K.": "TK",
    "T.L.": "TL",
    "T.M.": "TM",
    "T.M.s": "TM's",
    "T.N.": "TN",
    "T.O.": "TO",
    "T.O.'s": "TO's",
    "T.P.": "TP",
    "T.Q.": "TQ",
    "T.R.": "TR",
    "T.S.": "TS",
    "T.T.": "TT",
    "T.U.": "TU",
    "T.V.": "TV",
    "T.W.": "TW",
    "T.X.": "TX",
    "TBCs": "TBC's",
    "TBMs": "TBM's",
    "TCKs": "TCK's",
    "TCUs": "TCU's",
    "TCiAP": "TCIAP",
    "TDCi": "TDCI",
    "TDs": "TD's",
    "TGVs": "TGV's",
    "TLDs": "TLD's",
    "TLRs": "TLR's",
    "TLs": "TL's",
    "TMGs": "TMG's",
    "TMSs": "TMS's",
    "TNTAs": "TNTA's",
    "TPVs": "TPV's",
    "TRPs": "TRP's",
    "TV": "Television",
    "TVETs": "TVET's",
    "TVIn": "TVIN",
    "TVRi": "TVRI",
    "TVSpy": "TVSPY",
    "TVi": "TVI",
    "TVii": "TVII",
    "TVs": "TV's",
    "TWTs": "TWT's",
    "Taf": "TAF",
    "TdIF": "TDIF",
    "Teatr": "TEATR",
    "Th": "Thursday",
    "ThSe": "THSE",
    "Thok": "THOK",
    "Thur": "Thursday",
    "Thurs": "Thursday",
    "Tiu": "TIU",
    "Tiv": "TIV",
    "Tiy's": "TIY's",
    "Tko": "TKO",
    "TlCu": "TLCU",
    "Tlas": "TLA's",
    "Tluk": "TLUK",
    "Tluszcz": "TLUSZCZ",
    "ToU": "TOU",
    "Tou": "TOU",
    "Tra": "TRA",
    "Trbic": "TRBIC",
    "Trcek": "TRCEK",
    "TrkA": "TRKA",
    "Trmcic": "TRMCIC",
    "TruTV": "TRUTV",
    "Trve": "TRVE",
    "Ts": "T's",
    "Tsa": "TSA",
    "Tsiv": "TSIV",
    "Tso": "TSO",
    "Tsvi": "TSVI",
    "Tta": "TTA",
    "Tu": "Tuesday",
    "Tuzk": "TUZK",
    "Tvam": "TVAM",
    "Tvo": "TVO",
    "Twa": "TWA",
    "Twi": "TWI",
    "TxDOT": "TXDOT",
    "Tyk": "TYK",
    "Tza'ar": "TZAAR",
    "Tze": "TZE",
    "Tzrif": "TZRIF",
    "Tzuh": "TZUH",
    "Tzvi": "TZVI",
    "U. D.": "UD",
    "U. E.": "UE",
    "U. F.": "UF",
    "U. M.": "UM",
    "U. S.": "US",
    "U.A.": "UA",
    "U.C.": "UC",
    "U.H.": "UH",
    "U.J.": "UJ",
    "U.K.": "UK",
    "U.L.": "UL",
    "U.M.": "UM",
    "U.N.": "UN",
    "U.N.'s": "UN's",
    "U.P.": "UP",
    "U.S.": "US",
    "U.S.'s": "US's",
    "U.S.C.'s": "USC's",
    "U.T.": "UT",
    "U.V.": "UV",
    "UAVs": "UAV's",
    "UAs": "UA's",
    "UDTs": "UDT's",
    "UFOs": "UFO's",
    "UHTCs": "UHTC's",
    "UMe": "UME",
    "UNSh": "UNSH",
    "UOCl": "UOCL",
    "UPBs": "UPB's",
    "UPnP": "UPNP",
    "UPyD": "UPYD",
    "URCs": "URC's",
    "URLhttp": "URLHTTP",
    "URLs": "URL's",
    "USAya": "USAYA",
    "USBs": "USB's",
    "USDoE": "USDOE",
    "USF&WS": "USF and WS",
    "USFbA": "USFBA",
    "USPs": "USP's",
    "UShs": "USH's",
    "UUs": "UU's",
    "UWFi": "UWFI",
    "Ua's": "UA's",
    "Uba": "UBA",
    "UbcM": "UBCM",
    "Ube": "UBE",
    "Ubi": "UBI",
    "Uc": "UC",
    "Uca": "UCA",
    "Ucar": "UCAR",
    "Ucmak": "UCMAK",
    "Ucn": "UCN",
    "Ucuncu": "UCUNCU",
    "Uczta": "UCZTA",
    "Ud": "UD",
    "Uda": "UDA",
    "Udit": "UDIT",
    "Udny": "UDNY",
    "Udu": "UDU",
    "Ueda's": "UEDA's",
    "Ufo": "UFO",
    "Ufot": "UFOT",
    "Ug": "UG",
    "Uga": "UGA",
    "Uge": "UGE",
    "Ugni": "UGNI",
    "Ugra": "UGRA",
    "Ugrszke": "UGRSZKE",
    "Uhha": "UHHA",
    "Uhud": "UHUD",
    "UiS": "UIS",
    "UiTM": "UITM",
    "Uiam": "UIAM",
    "Uibh": "UIBH",
    "Uible": "UIBLE",
    "Uig": "UIG",
    "Uit": "UIT",
    "Uiy": "UIY",
    "Ujed": "UJED",
    "Ujsag": "UJSAG",
    "Uk": "UK",
    "Uka": "UKA",
    "Ukhra": "UKHRA",
    "Uki": "UKI",
    "Ukic": "UKIC",
    "Uko": "UKO",
    "Ukoh": "UKOH",
    "Ukr": "UKR",
    "Ukui": "UKUI",
    "Ukwu": "UKWU",
    "UlSU": "ULSU",
    "Ulic": "ULIC",
    "Ull": "ULL",
    "Ulms": "ULM's",
    "Uluj": "ULUJ",
    "Ulus": "ULU's",
    "Ulwa": "ULWA",
    "Ulwe": "ULWE",
    "Umbr": "UMBR",
    "Umla": "UMLA",
    "Umme": "UMME",
    "Umno": "UMNO",
    "Umri": "UMRI",
    "Unli": "UNLI",
    "Unlu": "UNLU",
    "Uns": "UN's",
    "Unst": "UNST",
    "Unt": "UNT",
    "Unz": "UNZ",
    "UoMs": "UOM's",
    "UoW": "UOW",
    "UofM": "UOFM",
    "Uoho": "UOHO",
    "Upd": "UPD",
    "Upf": "UPF",
    "Upir": "UPIR",
    "Uppu": "UPPU",
    "Urbz": "URBZ",
    "Urdd": "URDD",
    "Urei": "UREI",
    "Urla": "URLA",
    "Usal": "USAL",
    "Usan": "USAN",
    "Uscie": "USCIE",
    "Usia": "USIA",
    "Uslu": "USLU",
    "Usmar": "USMAR",
    "Usna": "USNA",
    "Usnic": "USNIC",
    "Uso": "USO",
    "Usoi": "USOI",
    "Usos": "USO's",
    "Usti": "USTI",
    "Ustka": "USTKA",
    "Usui": "USUI",
    "Usut": "USUT",
    "Usvit": "USVIT",
    "Uta": "UTA",
    "Uta's": "UTA's",
    "Utca": "UTCA",
    "Utd": "UTD",
    "Utd's": "UTD's",
    "Utes": "UTE's",
    "Uth": "UTH",
    "Uti": "UTI",
    "Utne": "UTNE",
    "Utnur": "UTNUR",
    "Uto": "UTO",
    "Utsav": "UTSAV",
    "Utsu": "UTSU",
    "Utu": "UTU",
    "Utva": "UTVA",
    "Uuh": "UUH",
    "Uul": "UUL",
    "Uulu": "UULU",
    "Uusi": "UUSI",
    "Uuto": "UUTO",
    "Uvac": "UVAC",
    "Uvea": "UVEA",
    "Uvo": "UVO",
    "Uwasa": "UWASA",
    "Uéda": "UE acute DA",
    "V&A": "V and A",
    "V&R": "V and R",
    "V&T": "V and T",
    "V&T's": "V and T's",
    "V'Ger": "VGER",
    "V. A.": "VA",
    "V. B.": "VB",
    "V. C.": "VC",
    "V. D.": "VD",
    "V. F.": "VF",
    "V. G.": "VG",
    "V. H.": "VH",
    "V. I.": "VI",
    "V. J.": "VJ",
    "V. K.": "VK",
    "V. L.": "VL",
    "V. M.": "VM",
    "V. N.": "VN",
    "V. P.": "VP",
    "V. R.": "VR",
    "V. V.": "VV",
    "V. Z.": "VZ",
    "V.A.": "VA",
    "V.B.": "VB",
    "V.C.": "VC",
    "V.D.": "VD",
    "V.F.": "VF",
    "V.G.": "VG",
    "V.I.": "VI",
    "V.I.C.'s": "VIC's",
    "V.I.P.s": "VIP's",
    "V.J.": "VJ",
    "V.K.": "VK",
    "V.L.": "VL",
    "V.M.": "VM",
    "V.N.": "VN",
    "V.O.": "VO",
    "V.P.": "VP",
    "V.R.": "VR",
    "V.T.": "VT",
    "V.V.": "VV",
    "VCDs": "VCD's",
    "VCRs": "VCR's",
    "VCSELs": "VCSEL's",
    "VCTs": "VCT's",
    "VCs": "VC's",
    "VDCs": "VDC's",
    "VGSCs": "VGSC's",
    "VGSoM": "VGSOM",
    "VGo": "VGO",
    "VIPs": "VIP's",
    "VJs": "VJ's",
    "VLCCs": "VLCC's",
    "VMAs": "VMA's",
    "VOL.": "Volume",
    "VPNs": "VPN's",
    "VSANs": "VSAN's",
    "VSATs": "VSAT's",
    "VSPs": "VSP's",
    "VTE": "VT eL",
    "VTi": "VTI",
    "VVIPs": "VVIP's",
    "VWs": "VW's",
    "Vav": "VAV",
    "Vay": "VAY",
    "Vda": "VDA",
    "Vez": "VEZ",
    "Vict": "VICT",
    "Vij": "VIJ",
    "Vlah": "VLAH",
    "Vlijt": "VLIJT",
    "Vol.": "Volume",
    "Vov": "VOV",
    "Voz": "VOZ",
    "Vrba": "VRBA",
    "Vrbuv": "VRBUV",
    "Vrej": "VREJ",
    "Vrin": "VRIN",
    "Vrouw": "VROUW",
    "Vrsac": "VRSAC",
    "Vrtis": "VRTI's",
    "Vsekh": "VSEKH",
    "Vtic": "VTIC",
    "Vuur": "VUUR",
    "Vyg": "VYG",
    "W&CBR": "W and CBR",
    "W&F": "W and F",
    "W&H": "W and H",
    "W&J": "W and J",
    "W&J's": "W and J's",
    "W&LE": "W and LE",
    "W&M": "W and M",
    "W&OD": "W and OD",
    "W. A.": "WA",
    "W. B.": "WB",
    "W. C.": "WC",
    "W. D.": "WD",
    "W. E.": "WE",
    "W. F.": "WF",
    "W. G.": "WG",
    "W. H.": "WH",
    "W. I.": "WI",
    "W. J.": "WJ",
    "W. K.": "WK",
    "W. L.": "WL",
    "W. M.": "WM",
    "W. N.": "WN",
    "W. O.": "WO",
    "W. P.": "WP",
    "W. R.": "WR",
    "W. S.": "WS",
    "W. T.": "WT",
    "W. U.": "WU",
    "W. V.": "WV",
    "W. W.": "WW",
    "W. Z.": "WZ",
    "W.A.": "WA",
    "W.B.": "WB",
    "W.C.": "WC",
    "W.D.": "WD",
    "W.E.": "WE",
    "W.F.": "WF",
    "W.G.": "WG",
    "W.H.": "WH",
    "W.J.": "WJ",
    "W.K.": "WK",
    "W.L.": "WL",
    "W.M.": "WM",
    "W.N.": "WN",
    "W.O.": "WO",
    "W.P.": "WP",
    "W.R.": "WR",
    "W.S.": "WS",
    "W.T.": "WT",
    "W.V.": "WV",
    "W.W.": "WW",
    "W.Y.": "WY",
    "WBs": "WB's",
    "WF&NW": "WF and NW",
    "WTTs": "WTT's",
    "WTs": "WT's",
    "WUAs": "WUA's",
    "WVa": "WVA",
    "Wa'il": "WAIL",
    "Waay": "WAAY",
    "Wakf": "WAKF",
    "Waqt": "WAQT",
    "Wasl": "WASL",
    "Watfa": "WATFA",
    "Wau": "WAU",
    "Waza": "WAZA",
    "Wed": "Wednesday",
    "Whyld": "WHYLD",
    "Wica": "WICA",
    "Wif": "WIF",
    "Wijk": "WIJK",
    "Wiwa": "WIWA",
    "Wley": "WLEY",
    "Worh": "WORH",
    "World War I": "World War one",
    "World War I.": "World War one",
    "World War II": "World War two",
    "World War II.": "World War two",
    "Wrec": "WREC",
    "Wu's": "WU's",
    "Wudl": "WUDL",
    "Wuhr": "WUHR",
    "Wuhu": "WUHU",
    "Wuz": "WUZ",
    "Wwe": "WWE",
    "X. C.": "XC",
    "X. D.": "XD",
    "X. H.": "XH",
    "X. W.": "XW",
    "X.F.": "XF",
    "X.M.": "XM",
    "X.O.": "XO",
    "X.Q.": "XQ",
    "XDRs": "XDR's",
    "XPe": "XPE",
    "XSi": "XSI",
    "XTwas": "XTWA's",
    "Xbra": "XBRA",
    "Xfce": "XFCE",
    "Y&R": "Y and R",
    "Y&T": "Y and T",
    "Y. A.": "YA",
    "Y. B.": "YB",
    "Y. C.": "YC",
    "Y. D.": "YD",
    "Y. G.": "YG",
    "Y. H.": "YH",
    "Y. I.": "YI",
    "Y. J.": "YJ",
    "Y. K.": "YK",
    "Y. L.": "YL",
    "Y. M.": "YM",
    "Y. N.": "YN",
    "Y. Q.": "YQ",
    "Y. T.": "YT",
    "Y. V.": "YV",
    "Y. W.": "YW",
    "Y.A.": "YA",
    "Y.B.": "YB",
    "Y.C.": "YC",
    "Y.D.": "YD",
    "Y.E.": "YE",
    "Y.G.": "YG",
    "Y.I.": "YI",
    "Y.K.": "YK",
    "Y.N.": "YN",
    "Y.O.": "YO",
    "Y.P.": "YP",
    "Y.S.": "YS",
    "Y.T.": "YT",
    "Y.Y.": "YY",
    "YF&R": "YF and R",
    "YFCs": "YFC's",
    "YSK'da": "YSKDA",
    "YSK'ya": "YSKYA",
    "Ydby": "YDBY",
    "Yde": "YDE",
    "YdiB": "YDIB",
    "Ykt": "YKT",
    "Yle": "YLE",
    "Ymke": "YMKE",
    "Yn": "YN",
    "Yndi": "YNDI",
    "Yngve": "YNGVE",
    "Ynis": "YNI's",
    "Yra": "YRA",
    "Ys": "Y's",
    "Ytre": "YTRE",
    "Z. A.": "ZA",
    "Z. H.": "ZH",
    "Z. I.": "ZI",
    "Z. J.": "ZJ",
    "Z. Y.": "ZY",
    "Z. Z.": "ZZ",
    "Z.A.": "ZA",
    "Z.G.": "ZG",
    "Z.H.": "ZH",
    "Z.K.": "ZK",
    "Z.L.": "ZL",
    "Z.M.": "ZM",
    "Z.P.": "ZP",
    "Z.W.": "ZW",
    "Z.X.": "ZX",
    "Z.Y.": "ZY",
    "Z.Z.": "ZZ",
    "ZIP": "zip",
    "Zdar": "ZDAR",
    "Zij": "ZIJ",
    "ZnO": "ZNO",
    "Zpav": "ZPAV",
    "ZrI": "ZRI",
    "Zsuzsa": "ZSUZSA",
    "^": "circumflex",
    "_": "underscore",
    "andFHL": "ANDFHL",
    "andPPP": "ANDPPP",
    "atpB": "ATPB",
    "bySLC": "BYSLC",
    "cDNA": "CDNA",
    "cDNAs": "CDNA's",
    "citS": "CITS",
    "cspA": "CSPA",
    "d'HEC": "DHEC",
    "d'OZ": "DOZ",
    "dBa": "DBA",
    "dotCMS": "DOTCMS",
    "dsDNA": "DSDNA",
    "eCRM": "ECRM",
    "eFS": "EFS",
    "eIF": "EIF",
    "eMC": "EMC",
    "ePO": "EPO",
    "fMRI": "FMRI",
    "glnA": "GLNA",
    "hDAF": "HDAF",
    "hMRE": "HMRE",
    "hSlo": "HSLO",
    "hTAS": "HTAS",
    "hgcA": "HGCA",
    "iBT": "IBT",
    "iCN": "ICN",
    "iCyt": "ICYT",
    "iMSNs": "IMSN's",
    "iOS": "IOS",
    "iPPV": "IPPV",
    "iPS": "IPS",
    "iPSC": "IPSC",
    "iPSCs": "IPSC's",
    "iQ": "IQ",
    "iSC": "ISC",
    "iTP": "ITP",
    "iXL": "IXL",
    "inHg": "INHG",
    "isCf": "ISCF",
    "kDa": "KDA",
    "l'OL": "LOL",
    "mBo": "MBO",
    "mDia": "MDIA",
    "mRNA": "MRNA",
    "mRNAs": "MRNA's",
    "mcyG": "MCYG",
    "mdDA": "MDDA",
    "mtvU": "MTVU",
    "pBCE": "PBCE",
    "pDAB": "PDAB",
    "pTA": "PTA",
    "rOmpB": "ROMPB",
    "rRNA": "RRNA",
    "rRNAs": "RRNA's",
    "rtPA": "RTPA",
    "tPA": "TPA",
    "tRNA": "TRNA",
    "tVTA": "TVTA",
    "tmRNA": "TMRNA",
    "truTV": "TRUTV",
    "uCs": "UC's",
    "uORF": "UORF",
    "xCo": "XCO",
    "xO": "XO",
    "xyZ": "XYZ",
    "|": "vertical bar",
    "~": "approximately",
    "£": "pound",
    "¥": "yen",
    "§": "section",
    "©": "copyright",
    "®": "registered trademark",
    "°": "degree",
    "º": "degree",
    "Γ": "gamma",
    "Ε": "epsilon",
    "Ζ": "zeta",
    "Η": "eta",
    "Θ": "theta",
    "Ι": "iota",
    "Κ": "kappa",
    "Λ": "lambda",
    "Μ": "mu",
    "Ν": "nu",
    "Ξ": "xi",
    "Ο": "omicron",
    "Π": "pi",
    "Ρ": "rho",
    "Σ": "sigma",
    "Τ": "tau",
    "Υ": "upsilon",
    "Φ": "phi",
    "Χ": "chi",
    "Ψ": "psi",
    "Ω": "omega",
    "γ": "gamma",
    "ε": "epsilon",
    "ζ": "zeta",
    "η": "eta",
    "θ": "theta",
    "ι": "iota",
    "κ": "kappa",
    "λ": "lambda",
    "μ": "mu",
    "ν": "nu",
    "ξ": "xi",
    "ο": "omicron",
    "π": "pi",
    "ρ": "rho",
    "σ": "sigma",
    "τ": "tau",
    "υ": "upsilon",
    "φ": "phi",
    "χ": "chi",
    "ψ": "psi",
    "ω": "omega",
    "₩": "won",
    "€": "euro",
    "™": "trademark",
}
