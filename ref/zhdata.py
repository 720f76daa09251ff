"""Tables the Chinese oracle uses; kept here so that a change of the tables in the source is noticed."""

UNITS_EN = dict(x.split("|") for x in """amu|原子质量
bar|巴
cm2|平方厘米
cm²|平方厘米
cm3|立方厘米
cm³|立方厘米
cm|厘米
cwt|美担
°c|摄氏度
°C|摄氏度
℃|摄氏度
db|分贝
dm3|立方分米
dm³|立方分米
dm|分米
ds|毫秒
ft|英尺
°f|华氏度
°F|华氏度
℉|华氏度
gb|吉字节
ghz|吉赫兹
gpa|吉帕斯卡
gwh|吉瓦时
gw|吉瓦
gy|戈瑞
h|小时
ha|公顷
hz|赫兹
kbps|千比特每秒
kcal|千卡
kgf|千克力
kg|千克
khz|千赫兹
km2|平方千米
km²|平方千米
km|公里
kpa|千帕
kwh|千瓦时
kw|千瓦
kW|千瓦
lbs|磅
lb|磅
L|升
m2|平方米
m²|平方米
m3|立方米
m³|立方米
mbps|兆比特每秒
mg|毫克
mhz|兆赫兹
mi2|平方英里
mi²|平方英里
min|分钟
mi|英里
ml|毫升
mm2|平方毫米
mm²|平方毫米
mm|毫米
mol|摩尔
mpa|兆帕
mph|英里每小时
ms|毫秒
mv|毫伏
mw|毫瓦
m|米
ng|纳克
nm|纳米
ns|纳秒
ºc|摄氏度
ºC|摄氏度
oz|盎司
º|度
pa|帕斯卡
pg|皮克
ps|皮秒
rad|弧度
rpm|转每分
sq ft|平方英尺
sq mi|平方英里
sv|系沃特
s|秒
tb|太字节
tj|万亿焦耳
tl|台两
v|伏特
yd|码
μg|微克
μm|微米
μs|微秒
ω|欧米茄
°|度""".split("\n"))
UNITS_ZH = """年来 年前 年后 年内 年之前 年之后 平方 平米 立方 公里 票 多 余 几 集 档 具 趟 人 篇 帧 把 封 艘 套 段 号 匹 张 座 回 场 尾 条 个 首 阙 阵 网 炮 顶 丘 棵 只 支 袭 辆 挑 担 颗 壳 窠 曲 墙 群 腔 砣 客 贯 扎 捆 刀 令 手 罗 坡 山 岭 江 溪 钟 队 单 双 对 口 头 脚 板 跳 枝 件 贴 针 线 管 名 位 身 堂 课 本 页 家 户 层 丝 毫 厘 分 钱 两 斤 铢 石 钧 锱 忽 克 寸 尺 丈 里 寻 常 铺 程 米 撮 勺 合 升 斗 盘 碗 碟 叠 桶 笼 盆 盒 杯 斛 锅 簋 篮 罐 瓶 壶 卮 盏 箩 箱 煲 啖 袋 钵 月 日 季 刻 时 小时 周 天 秒 旬 纪 岁 世 更 夜 春 夏 秋 冬 代 伏 辈 丸 泡 粒 幢 堆 根 道 面 片 块 架 千米 分米 厘米 毫米 微米 纳米 亿 千万 百万 万 千 百 亿块 千万块 百万块 万块 千块 百块 亿角 千万角 百万角 万角 千角 百角 亿毛 千万毛 百万毛 万毛 千毛 百毛 亿分 千万分 百万分 万分 千分 百分 亿元 千万元 百万元 万元 千元 百元 元 吨 度 摄氏度 字 兆""".split()
CURRENCY = dict(x.split("|") for x in """A$|澳元
AED|阿联酋迪拉姆
ARS|阿根廷比索
AUD|澳元
CAD$|加元
CAD|加元
CHF|瑞士法郎
CNY|人民币
EUR|欧元成员国
GBP|英镑
HK＄|港元
HKD|港元
INR|印度卢比
J￥|日元
JPY￥|日元
JPY|日元
KRW|韩元
RUB|俄罗斯卢布
SAR|沙特阿拉伯里亚尔
SEK|瑞典克朗
SGD|新加坡元
THB|泰铢
TRY|土耳其里拉
USD|美元
$|美元
£|英镑
￡|英镑
¥|元
￥|元
฿|泰铢
€|欧元
₹|印度卢比
₽|卢布
R$|巴西雷亚尔""".split("\n"))
TRADITIONAL = dict(zip(
    "丟並乗乹亁亂亙亞亯亱亷亾伕佀佇佈佔併來侖侶侷俁係俛俠倀倆倉個倐們倖倣倫倸偉偘偪側偵偸偺偽傑傖傘備傚傢傭傯傳傴債傷傾僂僅僉僊僑僕僞僥僨僱價儀儁儂億儅儈儉儐儔儕儘償優儲儵儷儸儹儺儻儼兇兌兎兒兗兠內兩冄冊冐冪冺凃凍凜凟凣処凱凴別刦刧刪刼剄則剋剛剝剮剳剴創剷剹劃劄劇劉劊劌劍劑劒効勁勅勌動勗務勛勝勞勢勣勦勱勳勵勸勻匃匄匟匭匯匱匲匳匵區協卹卻厀厙厛厠厤厭厰厲厴參叡叢吚吳呂呌呪咊咼員哢哶唄唕唚唫唸啎問啑啓啗啞啟啣喆喒喚喦喪喫喬單喲嗁嗆嗇嗎嗚嗩嗶嘅嘆嘍嘑嘔嘖嘗嘜嘠嘩嘮嘯嘰嘵嘸噁噅噉噓噝噠噥噦噯噲噴噸噹嚀嚇嚌嚐嚕嚙嚥嚦嚨嚮嚳嚴嚶嚻囀囁囂囅囈囌囑囘囙囪囬囯圅圇國圍園圓圖團坰坵坿垜垵垻埛埜埡埰埳執堃堅堊堖堘堝堦堯報場堿塊塋塏塒塗塚塟塢塤塲塵塹塼墊墖墜墝墪墮墰墳墻墾壄壇壎壓壘壙壚壜壞壟壠壢壩壯壺壻壽夀夘夠夢夾奐奧奩奪奮妝妬妳妷姉姍姙姦姪娛娬娿婁婦婬婭媧媮媯媼媽媿嫋嫗嫰嫵嫺嫻嬀嬈嬋嬌嬙嬝嬡嬤嬪嬭嬰嬸嬾孃孌孫學孼孿宂宮宼寀寘寢實寧審寫寬寵寶尅將專尋對導尲尷屆屍屜屢層屨屬岅岡峝峩峯峴島峽崍崐崑崗崙崠崢崬崳嵐嵗嶁嶄嶇嶗嶠嶧嶴嶸嶺嶼嶽巋巒巔巖巗巰巵巹帀帥師帬帳帶幀幃幑幗幘幙幟幣幫幬幹幾庫庻廁廂廄廈廐廕廚廝廟廠廡廢廣廩廬廳廵廹廻廼弔弳張強彆彈彊彌彎彙彜彞彥彫彿徃徑從徠復徬徴徹怱怳恆恠恡恥悅悤悳悵悶悽惏惡惥惱惲惻愛愜愨愴愷愽愾慂慄慇態慍慘慙慚慟慣慤慪慫慮慳慴慶慼慾憂憇憊憐憑憒憚憤憫憮憲憶懃懇應懌懍懕懞懟懣懨懲懶懷懸懺懼懽懾戀戇戔戧戩戯戰戲戶戹戼扡拏拕挐挱挾挿捄捨捫捲掃掄掙掛採掽揀揑揚換揫揮揹搆搇搉損搖搗搥搨搯搶搾摑摜摟摣摯摳摶摻撈撐撓撚撟撡撣撥撦撫撲撳撻撾撿擁擄擇擊擋擔擕據擠擡擣擧擬擯擰擱擲擴擷擺擻擼擾攄攆攏攔攖攙攛攜攝攢攣攤攩攪攬攷敂敍敗敘敭敵數敺斂斃斕斬斮斲斵斷旂旾昇昬昰時晉晝晳晻暈暉暎暠暢暫暱曄曆曇曉曏曖曠曡曬書會朢朧朶東枏枒枴柟柵柹柺査栁桮桺桿梔梘條梟梱棃棄棊棖棗棟棧棬棲椀椏椗椶楊楓楥楨業楳極榦榪榮榿槀槃構槍槑槓槕槧槨槩槳槼樁樂樅樑樓標樞樣樷樸樹樺橈橋橜機橢橤橫橰檁檉檔檜檝檢檣檯檳檸檻檾櫂櫃櫈櫓櫚櫛櫝櫞櫟櫥櫧櫨櫪櫫櫬櫳櫸櫺櫻欄權欏欑欒欖欞欬欵欽歎歐歗歛歟歡歲歷歸歿殀殘殞殤殫殭殮殯殲殺殼毀毆毉毘毧毬毿氂氈氊氌氣氫氬氳氷氹氾汎汙汚決沍沒沖況泝洩洶浹涇涖涼淒淚淛淥淨淩淪淵淶淺渙減渦測渾湊湞湣湧湯湻溈準溝溫溼滄滅滌滎滙滛滬滯滲滷滸滾滿漁漚漢漣漬漲漵漸漿潁潄潑潔潙潛潟潤潯潰潷潿澀澁澂澆澇澗澠澤澩澮澱濁濃濕濘濛濟濤濫濬濰濱濶濺濼濾瀅瀆瀉瀋瀏瀕瀘瀝瀟瀠瀦瀧瀨瀰瀲瀾灃灄灋灑灕灘灝灣灤灧灩災炤為烏烖烴無煆煇煉煑煒煖煗煙煢煥煩煬熒熗熱熾燁燄燈燉燐燒燙燜營燦燬燭燴燻燼燾燿爍爐爗爛爭爲爺爾牀牆牋牎牐牓牕牘牠牴牽犂犇犖犛犢犧狀狥狹狽猂猙猨猶猻獁獃獄獅獋獎獘獧獨獪獫獰獲獵獷獸獺獻獼玀玅玆玨珎珮現琍琯琱琹琺琿瑉瑋瑠瑣瑤瑩瑪瑯璉璢璣璦環璽璿瓈瓊瓌瓏瓔瓚甌甎甕甖產産甦畊畝畢畧畫異畱當疇疉疊疎疘疿痐痙痠痳痺痾瘂瘉瘋瘍瘓瘖瘞瘡瘧瘺瘻療癄癅癆癇癉癒癘癟癡癢癤癥癧癩癬癭癮癰癱癲發皁皚皜皰皷皸皺盃盇盌盜盞盡監盤盧盪眎眡眥眾睏睜睞睠瞇瞖瞘瞞瞼矁矇矙矚矯矴砲硃硤硨硯硶碁碩碪碭碸確碼磚磣磧磯磽礎礙礦礪礫礬礮礱祐祑祕祿禍禎禦禩禪禮禰禱禿秈秌稅稈稜稟稭種稱稺穀穅穉穌積穎穡穢穨穩穫穭穽窓窩窪窮窯窰窶窺竄竅竇竈竊竚竝竢竪競筆筍筞筦筧筩筯筴箇箋箏箒箠節範築篋篛篠篤篩篳篹簀簍簑簒簞簡簣簫簮簷簽簾籃籌籐籜籟籠籢籤籥籩籪籬籮籲粃粇粦粧粬粰粵粺糉糝糞糢糧糰糲糴糶糾紀紂約紅紆紇紈紉紋納紐紓純紕紗紙級紛紜紡紥紮細紱紲紳紹紺紼紿絀終絃組絆絎絏結絕絛絝絞絡絢給絨統絲絳絹綁綃綆綈綉綏綑經綜綞綠綢綣綫綬維綰綱網綳綴綵綸綹綺綻綽綾綿緄緇緊緋緍緐緒緔緗緘緙線緜緝緞締緡緣緤緥緦編緩緬緯緱緲練緶緹緻縂縈縉縊縋縐縑縚縛縝縞縟縣縧縫縭縮縯縱縲縴縵縶縷縹總績繃繅繆繈繒織繕繖繙繚繞繡繢繦繩繪繫繭繮繯繰繳繹繼繽繾纈纊續纍纏纓纖纘纜缽缾罇罈罋罌罎罏罰罵罷罸羅羆羈羋羗羢羣羥羨義羶習翫翶翹翺耑耡耬耮聖聞聯聰聲聳聵聶職聹聼聽聾肅肎肐肧胷脃脅脇脈脗脛脣脩脫脹腎腖腡腦腫腳腸膁膃膚膠膩膽膾膿臉臋臍臏臒臕臘臙臚臝臟臠臥臨臯臺與興舉舊舖舘舩艕艙艢艣艤艦艪艫艱艷艸芲芻苧茘茲荊荳莊莖莢莧菑菓華菴萇萊萬萲萵葉葒葠葤葦葯葷蒐蒓蒔蒞蒼蓀蓆蓋蓡蓧蓮蓯蓴蓽蔆蔔蔕蔞蔣蔥蔦蔭蔴蔾蕁蕆蕋蕎蕒蕓蕕蕘蕚蕢蕩蕪蕭蕷蕿薈薊薌薑薔薙薟薦薩薺藍藎藝藥藪藶藷藹藺藼蘂蘄蘆蘇蘊蘋蘐蘚蘞蘢蘤蘭蘺蘿處虖虛虜號虧虯虵蚘蛕蛺蛻蜆蜋蜖蜨蜺蝕蝟蝦蝨蝯蝳蝸螄螎螘螞螡螢螻蟁蟄蟇蟈蟎蟣蟬蟯蟲蟶蟻蠅蠆蠍蠏蠐蠑蠔蠟蠣蠱蠶蠻衆衇衊術衕衖衚衛衝衞衹衺袞袠裊裌裏補裝裠裡裦製複褲褳褸褻襆襇襍襖襝襠襢襤襪襯襲覇覈見規覓覔視覘覜覡覦覩親覬覯覰覲覷覺覻覽覿觀觔觕觝觴觶觸訁訂訃計訊訌討訏訐訓訕訖託記訛訝訟訢訣訥訦訪設許訴訶診註証詁詆詎詐詒詔評詘詛詞詠詡詢詣試詧詩詫詬詭詮詰話該詳詵詶詼詿誄誅誆誇誌認誑誒誕誖誘誚語誠誡誣誤誥誦誨說説誰課誶誹誼調諂諄談諉請諍諏諐諑諒論諗諛諜諞諠諡諢諤諦諧諫諭諮諱諳諶諷諸諺諼諾謀謁謂謄謅謊謌謎謐謔謖謗謙謚講謝謠謨謫謬謳謹謼謾譁譆證譌譎譏譔譖識譙譚譜譟譫譭譯議譴護譽譾讀讁讅變讌讎讐讒讓讕讖讚讛讜讞谿豈豎豐豔豬貍貓貛貝貞負財貢貧貨販貪貫責貯貰貲貳貴貶買貸貺費貼貽貿賀賁賂賃賄賅資賈賉賊賍賑賒賓賔賕賚賛賜賞賠賡賢賣賤賦賧質賫賬賭賮賴賸賺賻購賽賾贄贅贈贊贋贍贏贐贓贖贗贛贜趂趕趙趨趲跡跥跴跼踐踡踫踰踴蹌蹏蹕蹚蹟蹠蹣蹤蹧蹵蹺躉躊躋躍躑躒躓躕躚躡躥躦躪躰躳躶軀車軋軌軍軒軔軛軟軤軫軲軸軹軺軻軼軾較輅輇載輊輒輓輔輕輛輜輝輞輟輥輦輩輪輭輯輳輸輻輾輿轂轄轅轆轉轍轎轔轟轡轢轤辠辢辤辦辭辮辯農辳迆迴迺迻逈逕這連逩週進遊運過達違遙遜遝遞遠遡適遯遲遷選遺遼邁還邇邊邏邐邨郃郟郤郵鄆鄉鄒鄔鄕鄖鄘鄧鄭鄰鄲鄴鄶鄺酈酧醃醕醖醜醞醫醬醻醼釀釁釃釅釋釐釓釔釕釗釘釙針釣釤釦釧釩釬釵釷釹釺鈀鈁鈄鈅鈈鈉鈍鈎鈐鈑鈔鈕鈞鈡鈣鈥鈦鈧鈮鈰鈳鈴鈷鈸鈹鈺鈽鈾鈿鉀鉄鉅鉆鉈鉉鉋鉍鉑鉕鉗鉚鉛鉞鉢鉤鉦鉬鉭鉸鉺鉻鉿銀銃銅銑銓銕銖銘銚銜銠銣銥銦銨銩銪銫銬銱銲銳銷銹銻銼鋁鋃鋅鋇鋌鋏鋒鋜鋝鋟鋣鋤鋥鋦鋨鋪鋮鋯鋰鋱鋶鋸鋻鋼錁錄錆錇錈錐錒錕錘錙錚錛錟錠錢錦錨錫錮錯錳錶錸鍀鍁鍃鍆鍇鍊鍋鍍鍔鍘鍛鍤鍥鍩鍫鍬鍰鍵鍶鍺鍼鍾鎂鎄鎇鎊鎋鎖鎘鎚鎢鎣鎦鎧鎩鎪鎬鎮鎰鎳鎵鎸鎿鏃鏇鏈鏌鏍鏑鏗鏘鏚鏜鏝鏞鏟鏡鏢鏤鏨鏵鏷鏹鏽鐃鐋鐐鐒鐓鐔鐘鐙鐝鐠鐦鐧鐨鐫鐮鐲鐳鐵鐸鐺鐿鑄鑊鑌鑑鑒鑔鑛鑠鑣鑤鑥鑪鑭鑰鑲鑵鑷鑹鑼鑽鑾鑿钁長門閂閃閆閉開閌閎閏閑閒間閔閘閙閡関閣閤閥閨閩閫閬閭閱閲閶閹閻閼閽閾閿闃闆闇闈闊闋闌闐闔闕闖闚關闞闡闢闥阨阬阯陗陘陝陞陣陰陳陸陻陽隂隄隉隊階隕隖際隣隨險隱隴隷隸隻雋雖雙雛雜雝雞離難雰雲電霑霛霤霧霽靂靄靈靚靜靣靦靨靭鞀鞉鞌鞏鞦鞵鞽鞾韁韃韆韉韋韌韓韙韜韝韞韤韮韻響頁頂頃項順頇須頊頌頎頏預頑頒頓頗領頜頡頤頦頫頭頰頷頸頹頻頽顂顆顋題額顎顏顓顔願顙顛類顢顥顦顧顫顬顯顰顱顳顴風颮颯颱颳颶颺颼颿飃飄飆飇飈飛飜飢飩飪飫飭飯飱飲飴飼飽飾餃餅餈餉養餌餑餒餓餘餚餛餞餡餧館餬餱餳餵餷餹餻餼餽餾餿饃饅饈饉饊饋饌饍饑饒饗饜饝饞饢馬馭馮馱馳馴駁駐駑駒駔駕駘駙駛駝駟駡駢駭駮駱駿騁騅騍騎騏騐騖騗騙騣騫騭騮騰騶騷騸騾驀驁驂驃驄驅驊驍驏驕驗驘驚驛驟驢驤驥驪骽骾髏髒體髕髖髣髩髮鬀鬁鬆鬉鬍鬚鬢鬥鬦鬧鬨鬩鬭鬮鬱魎魘魚魯魴魷鮁鮃鮌鮎鮐鮑鮒鮚鮞鮪鮫鮭鮮鯀鯁鯇鯉鯊鯔鯖鯗鯛鯝鯡鯢鯤鯧鯨鯪鯫鯰鯴鯽鯿鰈鰉鰌鰍鰐鰒鰓鰠鰣鰥鰨鰩鰭鰱鰲鰳鰵鰷鰹鰻鰾鱅鱈鱉鱒鱓鱔鱖鱗鱘鱝鱟鱧鱭鱷鱸鱺鳥鳧鳩鳳鳴鳶鴆鴇鴈鴉鴕鴛鴝鴟鴣鴦鴨鴯鴰鴻鴿鵂鵑鵒鵓鵜鵝鵞鵠鵡鵪鵬鵯鵰鵲鵶鶇鶉鶓鶘鶚鶥鶩鶯鶴鶻鶼鶿鷀鷂鷄鷓鷗鷙鷚鷥鷦鷯鷰鷲鷳鷴鷸鷹鷺鷼鸌鸎鸕鸚鸛鸝鸞鹵鹹鹺鹼鹽麅麐麗麞麤麥麩麪麯麵麼黃黌點黨黲黴黷黽黿鼃鼇鼈鼉鼕鼴齇齊齋齎齏齒齔齙齜齟齠齡齣齦齧齪齬齲齶齷龍龐龔龕龜後",
    "丢并乘乾乾乱亘亚享夜廉亡夫似伫布占并来仑侣局俣系俯侠伥俩仓个倏们幸仿伦睬伟侃逼侧侦偷咱伪杰伧伞备效家佣偬传伛债伤倾偻仅佥仙侨仆伪侥偾雇价仪俊侬亿当侩俭傧俦侪尽偿优储倏俪罗攒傩傥俨凶兑兔儿兖兜内两冉册冒幂泯涂冻凛渎凡处凯凭别劫劫删劫刭则克刚剥剐札剀创铲戮划札剧刘刽刿剑剂剑效劲敕倦动勖务勋胜劳势绩剿劢勋励劝匀丐丐炕匦汇匮奁奁椟区协恤却膝厍厅厕历厌厂厉厣参睿丛咿吴吕叫咒和呙员咔咩呗唣吣吟念忤问喋启啖哑启衔哲咱唤岩丧吃乔单哟啼呛啬吗呜唢哔慨叹喽呼呕啧尝唛嘎哗唠啸叽哓呒恶咴啖嘘咝哒哝哕嗳哙喷吨当咛吓哜尝噜啮咽呖咙向喾严嘤嚣啭嗫嚣冁呓苏嘱回因囱回国函囵国围园圆图团垧丘附垛埯坝炯野垭采坎执坤坚垩垴塍埚阶尧报场碱块茔垲埘涂冢葬坞埙场尘堑砖垫塔坠硗墩堕坛坟墙垦野坛埙压垒圹垆坛坏垄垄坜坝壮壶婿寿寿帽够梦夹奂奥奁夺奋妆妒你侄姊姗妊奸侄娱妩婀娄妇淫娅娲偷妫媪妈愧袅妪嫩妩娴娴妫娆婵娇嫱袅嫒嬷嫔奶婴婶懒娘娈孙学孽孪冗宫寇采置寝实宁审写宽宠宝克将专寻对导尴尴届尸屉屡层屦属坂冈峒峨峰岘岛峡崃昆昆岗仑岽峥岽嵛岚岁嵝崭岖崂峤峄岙嵘岭屿岳岿峦巅岩岩巯卮卺匝帅师裙帐带帧帏徽帼帻幕帜币帮帱干几库庶厕厢厩厦厩荫厨厮庙厂庑废广廪庐厅巡迫回乃吊弪张强别弹强弥弯汇彝彝彦雕佛往径从徕复仿征彻匆恍恒怪吝耻悦匆德怅闷凄婪恶恿恼恽恻爱惬悫怆恺博忾恿栗殷态愠惨惭惭恸惯悫怄怂虑悭慑庆戚欲忧憩惫怜凭愦惮愤悯怃宪忆勤恳应怿懔恹蒙怼懑恹惩懒怀悬忏惧欢慑恋戆戋戗戬戏战戏户厄帽扦拿拖拿挲挟插救舍扪卷扫抡挣挂采碰拣捏扬换揪挥背构揿榷损摇捣捶拓掏抢榨掴掼搂揸挚抠抟掺捞撑挠捻挢操掸拨扯抚扑揿挞挝捡拥掳择击挡担携据挤抬捣举拟摈拧搁掷扩撷摆擞撸扰摅撵拢拦撄搀撺携摄攒挛摊挡搅揽考叩叙败叙扬敌数驱敛毙斓斩斫斫斫断旗春升昏是时晋昼晰暗晕晖映皓畅暂昵晔历昙晓向暧旷叠晒书会望胧朵东楠丫拐楠栅柿拐查柳杯柳杆栀枧条枭捆梨弃棋枨枣栋栈桊栖碗桠碇棕杨枫楦桢业梅极干杩荣桤稿盘构枪梅杠桌椠椁概桨规桩乐枞梁楼标枢样丛朴树桦桡桥橛机椭蕊横槔檩柽档桧楫检樯台槟柠槛苘棹柜凳橹榈栉椟橼栎橱槠栌枥橥榇栊榉棂樱栏权椤攒栾榄棂咳款钦叹欧啸敛欤欢岁历归殁夭残殒殇殚僵殓殡歼杀壳毁殴医毗绒球毵牦毡毡氇气氢氩氲冰凼泛泛污污决冱没冲况溯泄汹浃泾莅凉凄泪浙渌净凌沦渊涞浅涣减涡测浑凑浈愍涌汤淳沩准沟温湿沧灭涤荥汇淫沪滞渗卤浒滚满渔沤汉涟渍涨溆渐浆颍漱泼洁沩潜舄润浔溃滗涠涩涩澄浇涝涧渑泽泶浍淀浊浓湿泞蒙济涛滥浚潍滨阔溅泺滤滢渎泻渖浏濒泸沥潇潆潴泷濑弥潋澜沣滠法洒漓滩灏湾滦滟滟灾照为乌灾烃无煅辉炼煮炜暖暖烟茕焕烦炀荧炝热炽烨焰灯炖磷烧烫焖营灿毁烛烩熏烬焘耀烁炉烨烂争为爷尔床墙笺窗闸榜窗牍它抵牵犁奔荦牦犊牺状徇狭狈悍狰猿犹狲犸呆狱狮嗥奖弊狷独狯猃狞获猎犷兽獭献猕猡妙兹珏珍佩现璃管雕琴珐珲珉玮琉琐瑶莹玛琅琏琉玑瑷环玺璇璃琼瑰珑璎瓒瓯砖瓮罂产产苏耕亩毕略画异留当畴叠叠疏肛痱蛔痉酸淋痹疴痖愈疯疡痪喑瘗疮疟瘘瘘疗憔瘤痨痫瘅愈疠瘪痴痒疖症疬癞癣瘿瘾痈瘫癫发皂皑皓疱鼓皲皱杯盍碗盗盏尽监盘卢荡视视眦众困睁睐眷眯翳眍瞒睑瞅蒙瞰瞩矫碇炮朱硖砗砚碜棋硕砧砀砜确码砖碜碛矶硗础碍矿砺砾矾炮砻佑帙秘禄祸祯御祀禅礼祢祷秃籼秋税秆棱禀秸种称稚谷糠稚稣积颖穑秽颓稳获稆阱窗窝洼穷窑窑窭窥窜窍窦灶窃伫并俟竖竞笔笋策管笕筒箸策个笺筝帚棰节范筑箧箬筱笃筛筚纂箦篓蓑篡箪简篑箫簪檐签帘篮筹藤箨籁笼奁签钥笾簖篱箩吁秕糠磷妆曲麸粤稗粽糁粪模粮团粝籴粜纠纪纣约红纡纥纨纫纹纳纽纾纯纰纱纸级纷纭纺扎扎细绂绁绅绍绀绋绐绌终弦组绊绗绁结绝绦绔绞络绚给绒统丝绛绢绑绡绠绨绣绥捆经综缍绿绸绻线绶维绾纲网绷缀彩纶绺绮绽绰绫绵绲缁紧绯缗繁绪绱缃缄缂线绵缉缎缔缗缘绁褓缌编缓缅纬缑缈练缏缇致总萦缙缢缒绉缣绦缚缜缟缛县绦缝缡缩演纵缧纤缦絷缕缥总绩绷缫缪襁缯织缮伞翻缭绕绣缋襁绳绘系茧缰缳缲缴绎继缤缱缬纩续累缠缨纤缵缆钵瓶樽坛瓮罂坛垆罚骂罢罚罗罴羁芈羌绒群羟羡义膻习玩翱翘翱端锄耧耢圣闻联聪声耸聩聂职聍听听聋肃肯胳胚胸脆胁胁脉吻胫唇修脱胀肾胨脶脑肿脚肠肷腽肤胶腻胆脍脓脸臀脐膑癯膘腊胭胪裸脏脔卧临皋台与兴举旧铺馆船膀舱樯橹舣舰橹舻艰艳艹花刍苎荔兹荆豆庄茎荚苋灾果华庵苌莱万萱莴叶荭参荮苇药荤搜莼莳莅苍荪席盖参莜莲苁莼荜菱卜蒂蒌蒋葱茑荫麻藜荨蒇蕊荞荬芸莸荛萼蒉荡芜萧蓣萱荟蓟芗姜蔷剃莶荐萨荠蓝荩艺药薮苈薯蔼蔺萱蕊蕲芦苏蕴苹萱藓蔹茏花兰蓠萝处呼虚虏号亏虬蛇蛔蛔蛱蜕蚬螂蛔蝶霓蚀猬虾虱猿玳蜗蛳融蚁蚂蚊萤蝼蚊蛰蟆蝈螨虮蝉蛲虫蛏蚁蝇虿蝎蟹蛴蝾蚝蜡蛎蛊蚕蛮众脉蔑术同弄胡卫冲卫只邪衮帙袅夹里补装裙里褒制复裤裢褛亵幞裥杂袄裣裆袒褴袜衬袭霸核见规觅觅视觇眺觋觎睹亲觊觏觑觐觑觉觑览觌观斤粗抵觞觯触讠订讣计讯讧讨吁讦训讪讫托记讹讶讼欣诀讷谌访设许诉诃诊注证诂诋讵诈诒诏评诎诅词咏诩询诣试察诗诧诟诡诠诘话该详诜酬诙诖诔诛诓夸志认诳诶诞悖诱诮语诚诫诬误诰诵诲说说谁课谇诽谊调谄谆谈诿请诤诹愆诼谅论谂谀谍谝喧谥诨谔谛谐谏谕谘讳谙谌讽诸谚谖诺谋谒谓誊诌谎歌谜谧谑谡谤谦谥讲谢谣谟谪谬讴谨呼谩哗嘻证讹谲讥撰谮识谯谭谱噪谵毁译议谴护誉谫读谪审变燕雠雠谗让谰谶赞呓谠谳溪岂竖丰艳猪狸猫獾贝贞负财贡贫货贩贪贯责贮贳赀贰贵贬买贷贶费贴贻贸贺贲赂赁贿赅资贾恤贼赃赈赊宾宾赇赉赞赐赏赔赓贤卖贱赋赕质赍账赌赆赖剩赚赙购赛赜贽赘赠赞赝赡赢赆赃赎赝赣赃趁赶赵趋趱迹跺踩局践蜷碰逾踊跄蹄跸趟迹跖蹒踪糟蹴跷趸踌跻跃踯跞踬蹰跹蹑蹿躜躏体躬裸躯车轧轨军轩轫轭软轷轸轱轴轵轺轲轶轼较辂辁载轾辄挽辅轻辆辎辉辋辍辊辇辈轮软辑辏输辐辗舆毂辖辕辘转辙轿辚轰辔轹轳罪辣辞办辞辫辩农农迤回乃移迥径这连奔周进游运过达违遥逊沓递远溯适遁迟迁选遗辽迈还迩边逻逦村合郏郄邮郓乡邹邬乡郧墉邓郑邻郸邺郐邝郦酬腌醇酝丑酝医酱酬燕酿衅酾酽释厘钆钇钌钊钉钋针钓钐扣钏钒焊钗钍钕钎钯钫钭钥钚钠钝钩钤钣钞钮钧钟钙钬钛钪铌铈钶铃钴钹铍钰钸铀钿钾铁钜钻铊铉刨铋铂钷钳铆铅钺钵钩钲钼钽铰铒铬铪银铳铜铣铨铁铢铭铫衔铑铷铱铟铵铥铕铯铐铞焊锐销锈锑锉铝锒锌钡铤铗锋镯锊锓铘锄锃锔锇铺铖锆锂铽锍锯鉴钢锞录锖锫锩锥锕锟锤锱铮锛锬锭钱锦锚锡锢错锰表铼锝锨锪钔锴炼锅镀锷铡锻锸锲锘锹锹锾键锶锗针钟镁锿镅镑辖锁镉锤钨蓥镏铠铩锼镐镇镒镍镓镌镎镞旋链镆镙镝铿锵戚镗镘镛铲镜镖镂錾铧镤镪锈铙铴镣铹镦镡钟镫镢镨锎锏镄镌镰镯镭铁铎铛镱铸镬镔鉴鉴镲矿铄镳刨镥炉镧钥镶罐镊镩锣钻銮凿镢长门闩闪闫闭开闶闳闰闲闲间闵闸闹阂关阁合阀闺闽阃阆闾阅阅阊阉阎阏阍阈阌阒板暗闱阔阕阑阗阖阙闯窥关阚阐辟闼厄坑址峭陉陕升阵阴陈陆堙阳阴堤陧队阶陨坞际邻随险隐陇隶隶只隽虽双雏杂雍鸡离难氛云电沾灵溜雾霁雳霭灵靓静面腼靥韧鼗鼗鞍巩秋鞋鞒靴缰鞑千鞯韦韧韩韪韬鞴韫袜韭韵响页顶顷项顺顸须顼颂颀颃预顽颁顿颇领颌颉颐颏俯头颊颔颈颓频颓赖颗腮题额颚颜颛颜愿颡颠类颟颢憔顾颤颥显颦颅颞颧风飑飒台刮飓扬飕帆飘飘飙飙飚飞翻饥饨饪饫饬饭飧饮饴饲饱饰饺饼糍饷养饵饽馁饿余肴馄饯馅喂馆糊糇饧喂馇糖糕饩馈馏馊馍馒馐馑馓馈馔膳饥饶飨餍馍馋馕马驭冯驮驰驯驳驻驽驹驵驾骀驸驶驼驷骂骈骇驳骆骏骋骓骒骑骐验骛骗骗鬃骞骘骝腾驺骚骟骡蓦骜骖骠骢驱骅骁骣骄验骡惊驿骤驴骧骥骊腿鲠髅脏体髌髋仿鬓发剃疬松鬃胡须鬓斗斗闹哄阋斗阄郁魉魇鱼鲁鲂鱿鲅鲆鲧鲇鲐鲍鲋鲒鲕鲔鲛鲑鲜鲧鲠鲩鲤鲨鲻鲭鲞鲷鲴鲱鲵鲲鲳鲸鲮鲰鲶鲺鲫鳊鲽鳇鳅鳅鳄鳆鳃鳋鲥鳏鳎鳐鳍鲢鳌鳓鳘鲦鲣鳗鳔鳙鳕鳖鳟鳝鳝鳜鳞鲟鲼鲎鳢鲚鳄鲈鲡鸟凫鸠凤鸣鸢鸩鸨雁鸦鸵鸳鸲鸱鸪鸯鸭鸸鸹鸿鸽鸺鹃鹆鹁鹈鹅鹅鹄鹉鹌鹏鹎雕鹊鸦鸫鹑鹋鹕鹗鹛鹜莺鹤鹘鹣鹚鹚鹞鸡鹧鸥鸷鹨鸶鹪鹩燕鹫鹇鹇鹬鹰鹭鹇鹱莺鸬鹦鹳鹂鸾卤咸鹾碱盐狍麟丽獐粗麦麸面曲面么黄黉点党黪霉黩黾鼋蛙鳌鳖鼍冬鼹齄齐斋赍齑齿龀龅龇龃龆龄出龈啮龊龉龋腭龌龙庞龚龛龟后"))
FULL = dict(zip('，。．“”！＂＃％＆＇（）＊＋－／：；＜＝＞？＠＼＾＿｀｛｜｝～＄０１２３４５６７８９ａＡｂＢｃＣｄＤｅＥｆＦｇＧｈＨｉＩｊＪｋＫｌＬｍＭｎＮｏＯｐＰｑＱｒＲｓＳｔＴｕＵｖＶｗＷｘＸｙＹｚＺ', ',..""!"#%&\'()*+-/:;<=>?@\\^_`{|}~$0123456789aAbBcCdDeEfFgGhHiIjJkKlLmMnNoOpPqQrRsStTuUvVwWxXyYzZ'))
PUNCT_ZH = '–—‘’‛“”„‟…‧、。〃《》「」『』【】〔〕〖〗〘〙〚〛〜〝〞〟〰﹏！＂＃％＆＇（）＊＋，－／：；＜＝＞？＠［＼］＾＿｀｛｜｝～｟｠｡｢｣､＄'
WHITELIST = {'B2B': 'B to B', 'M.V.P': 'M V P', 'O2O': 'O to O', 'P2P': 'P to P', 'BY2': 'BY TWO', 'By2': 'By Two', '10后': '一零后', '00后': '零零后', '90后': '九零后', '80后': '八零后', '70后': '七零后', '60后': '六零后', '50后': '五零后'}
ERHUA = """儿女 儿子 儿孙 女儿 儿媳 妻儿 胎儿 婴儿 新生儿 婴幼儿 幼儿 少儿 小儿 儿歌 儿童 儿科 托儿所 孤儿 儿戏 儿化 台儿庄 鹿儿岛 正儿八经 吊儿郎当 生儿育女 托儿带女 养儿防老 痴儿呆女 佳儿佳妇 儿怜兽扰 儿无常父 儿不嫌母丑 儿行千里母担忧 儿大不由爷 苏乞儿 容祖儿""".split()
CHARSET = """一丁七万丈三上下不与丏丐丑专且丕世丘丙业丛东丝丞丢两严丧个丫中丰串临丸丹为主丽举乂乃久么义之乌乍乎乏乐乒乓乔乖乘乙乜九乞也习乡书乩买乱乳乸乾了予争事二亍于亏云互亓五井亘亚些亟亡亢交亥亦产亨亩享京亭亮亲亳亵亶亸亹人亿什仁仂仃仄仅仆仇仉今介仍从仑仓仔仕他仗付仙仝仞仟仡代令以仨仪仫们仰仲仳仵件价任份仿企伈伉伊伋伍伎伏伐休众优伙会伛伞伟传伢伣伤伥伦伧伪伫伭伯估伲伴伶伸伺似伽伾佁佃但位低住佐佑体何佖佗佘余佚佛作佝佞佟你佣佤佥佩佬佯佰佳佴佶佸佺佻佼佽佾使侁侂侃侄侈侉例侍侏侑侔侗侘供依侠侣侥侦侧侨侩侪侬侮侯侴侵侹便促俄俅俊俍俎俏俐俑俗俘俙俚俜保俞俟信俣俦俨俩俪俫俭修俯俱俳俵俶俸俺俾倌倍倏倒倓倔倕倘候倚倜倞借倡倥倦倧倨倩倪倬倭倮倴债倻值倾偁偃假偈偌偎偏偓偕做停偡健偬偭偰偲偶偷偻偾偿傀傃傅傈傉傍傒傕傣傥傧储傩催傲傺傻僇僎像僔僖僚僦僧僬僭僮僰僳僵僻儆儇儋儒儡儦儳儴儿兀允元兄充兆先光克免兑兔兕兖党兜兢入全八公六兮兰共关兴兵其具典兹养兼兽冀冁内冈冉册再冏冒冔冕冗写军农冠冢冤冥冬冮冯冰冱冲决况冶冷冻冼冽净凄准凇凉凋凌减凑凓凘凛凝几凡凤凫凭凯凰凳凶凸凹出击凼函凿刀刁刃分切刈刊刍刎刑划刖列刘则刚创初删判刨利别刬刭刮到刳制刷券刹刺刻刽刿剀剁剂剃剅削剋剌前剐剑剔剕剖剜剞剟剡剥剧剩剪副割剽剿劁劂劄劈劐劓力劝办功加务劢劣动助努劫劬劭励劲劳劼劾势勃勇勉勋勍勐勒勔勖勘勚募勠勤勰勺勾勿匀包匆匈匍匏匐匕化北匙匜匝匠匡匣匦匪匮匹区医匼匾匿十千卅升午卉半华协卑卒卓单卖南博卜卞卟占卡卢卣卤卦卧卫卬卮卯印危即却卵卷卸卺卿厂厄厅历厉压厌厍厕厖厘厚厝原厢厣厥厦厨厩厮去厾县叁参叆叇又叉及友双反发叔叕取受变叙叚叛叟叠口古句另叨叩只叫召叭叮可台叱史右叵叶号司叹叻叼叽吁吃各吆合吉吊同名后吏吐向吒吓吕吖吗君吝吞吟吠吡吣否吧吨吩含听吭吮启吱吲吴吵吸吹吻吼吽吾呀呃呆呇呈告呋呐呒呓呔呕呖呗员呙呛呜呢呣呤呦周呱呲味呵呶呷呸呻呼命咀咂咄咆咇咉咋和咍咎咏咐咒咔咕咖咙咚咛咝咡咣咤咥咦咧咨咩咪咫咬咯咱咳咴咸咺咻咽咿哀品哂哃哄哆哇哈哉哌响哎哏哐哑哒哓哔哕哗哙哚哝哞哟哢哥哦哧哨哩哪哭哮哱哲哳哺哼哽哿唁唆唇唉唏唐唑唔唛唝唠唢唣唤唧唪唬售唯唰唱唳唵唷唼唾唿啁啃啄商啉啊啐啕啖啜啡啤啥啦啧啪啫啬啭啮啰啴啵啶啷啸啻啼啾喀喁喂喃善喆喇喈喉喊喋喏喑喔喘喙喜喝喟喤喧喱喳喵喷喹喻喽喾嗄嗅嗉嗌嗍嗐嗑嗒嗓嗔嗖嗜嗝嗞嗟嗡嗣嗤嗥嗦嗨嗪嗫嗬嗯嗲嗳嗵嗷嗽嗾嘀嘁嘈嘉嘌嘎嘏嘘嘚嘛嘞嘟嘡嘣嘤嘧嘬嘭嘱嘲嘴嘶嘹嘻嘿噀噂噇噌噍噎噔噗噘噙噜噢噤器噩噪噫噬噱噶噻噼嚄嚅嚆嚎嚏嚓嚚嚣嚭嚯嚷嚼囊囔囚四回囟因囡团囤囫园困囱围囵囷囹固国图囿圃圄圆圈圉圊圌圐圙圜土圢圣在圩圪圫圬圭圮圯地圲圳圹场圻圾址坂均坉坊坋坌坍坎坏坐坑坒块坚坛坜坝坞坟坠坡坤坥坦坨坩坪坫坬坭坯坰坳坷坻坼坽垂垃垄垆垈型垌垍垎垏垒垓垕垙垚垛垞垟垠垡垢垣垤垦垧垩垫垭垮垯垱垲垴垵垸垺垾垿埂埃埆埇埋埌城埏埒埔埕埗埘埙埚埝域埠埤埪埫埭埯埴埵埸培基埼埽堂堃堆堇堉堋堌堍堎堐堑堕堙堞堠堡堤堧堨堪堰堲堵堼堽堾塄塅塆塌塍塑塔塘塝塞塥填塬塱塾墀墁境墅墈墉墐墒墓墕墘墙墚增墟墡墣墦墨墩墼壁壅壑壕壤士壬壮声壳壶壸壹处备复夏夐夔夕外夙多夜够夤夥大天太夫夬夭央夯失头夷夸夹夺夼奁奂奄奇奈奉奋奎奏契奓奔奕奖套奘奚奠奡奢奥奭女奴奶奸她好妁如妃妄妆妇妈妊妍妒妓妖妗妘妙妞妣妤妥妧妨妩妪妫妭妮妯妲妹妻妾姆姈姊始姐姑姒姓委姗姘姚姜姝姞姣姤姥姨姬姮姱姶姹姻姽姿娀威娃娄娅娆娇娈娉娌娑娓娘娜娟娠娣娥娩娱娲娴娵娶娼婀婆婉婊婌婍婕婘婚婞婠婢婤婧婪婫婳婴婵婶婷婺婻婼婿媂媄媆媒媓媖媚媛媞媪媭媱媲媳媵媸媾嫁嫂嫄嫉嫌嫒嫔嫕嫖嫘嫚嫜嫠嫡嫣嫦嫩嫪嫫嫭嫱嫽嬉嬖嬗嬛嬥嬬嬴嬷嬿孀孅子孑孓孔孕孖字存孙孚孛孜孝孟孢季孤孥学孩孪孬孰孱孳孵孺孽宁它宄宅宇守安宋完宏宓宕宗官宙定宛宜宝实宠审客宣室宥宦宧宪宫宬宰害宴宵家宸容宽宾宿寁寂寄寅密寇富寐寒寓寝寞察寡寤寥寨寮寰寸对寺寻导寿封射将尉尊小少尔尕尖尘尚尜尝尢尤尥尧尨尪尬就尴尸尹尺尻尼尽尾尿局屁层屃居屈屉届屋屎屏屐屑展屙属屠屡屣履屦屯山屹屺屼屾屿岁岂岈岊岌岍岐岑岔岖岗岘岙岚岛岜岞岠岢岣岨岩岫岬岭岱岳岵岷岸岽岿峁峂峃峄峋峒峗峘峙峛峡峣峤峥峦峧峨峪峭峰峱峻峿崀崁崂崃崄崆崇崌崎崒崔崖崚崛崞崟崡崤崦崧崩崭崮崴崶崽崾崿嵁嵅嵇嵊嵋嵌嵎嵖嵘嵚嵛嵝嵩嵫嵬嵯嵲嵴嶂嶅嶍嶒嶓嶙嶝嶟嶦嶲嶷巅巇巉巍川州巡巢工左巧巨巩巫差巯己已巳巴巷巽巾币市布帅帆师希帏帐帑帔帕帖帘帙帚帛帜帝帡带帧帨席帮帱帷常帻帼帽幂幄幅幌幔幕幖幛幞幡幢幪干平年并幸幺幻幼幽广庄庆庇床庋序庐庑库应底庖店庙庚府庞废庠庤庥度座庭庱庳庵庶康庸庹庼庾廆廉廊廋廑廒廓廖廙廛廨廪延廷建廿开弁异弃弄弆弇弈弊弋式弑弓引弗弘弛弟张弢弥弦弧弨弩弭弯弱弶弸弹强弼彀归当录彖彗彘彝彟形彤彦彧彩彪彬彭彰影彳彷役彻彼往征徂径待徇很徉徊律徐徒徕得徘徙徛徜御徨循徭微徵德徼徽心必忆忉忌忍忏忐忑忒忖志忘忙忝忞忠忡忤忧忪快忭忮忱忳念忸忺忻忽忾忿怀态怂怃怄怅怆怊怍怎怏怒怔怕怖怙怛怜思怠怡急怦性怨怩怪怫怯怵总怼怿恁恂恃恋恍恐恒恓恔恕恙恚恝恢恣恤恧恨恩恪恫恬恭息恰恳恶恸恹恺恻恼恽恿悃悄悆悈悉悌悍悒悔悖悚悛悝悟悠悢患悦您悫悬悭悯悰悱悲悴悸悻悼情惆惇惊惋惎惑惔惕惘惙惚惛惜惝惟惠惦惧惨惩惫惬惭惮惯惰想惴惶惹惺愀愁愃愆愈愉愍愎意愐愔愕愚感愠愣愤愦愧愫愭愿慆慈慊慌慎慑慕慝慢慥慧慨慬慭慰慵慷憋憎憔憕憙憧憨憩憬憭憷憺憾懂懈懊懋懑懒懔懦懵懿戆戈戊戋戌戍戎戏成我戒戕或戗战戚戛戟戡戢戣戤戥截戬戭戮戳戴户戽戾房所扁扂扃扅扆扇扈扉扊手才扎扑扒打扔托扛扞扣扦执扩扪扫扬扭扮扯扰扳扶批扺扼扽找承技抃抄抉把抑抒抓抔投抖抗折抚抛抟抠抡抢护报抨披抬抱抵抹抻押抽抿拂拃拄担拆拇拈拉拊拌拍拎拐拒拓拔拖拗拘拙招拜拟拢拣拤拥拦拧拨择括拭拮拯拱拳拴拶拷拼拽拾拿持挂指挈按挎挑挓挖挚挛挝挞挟挠挡挣挤挥挦挨挪挫振挲挹挺挽捂捃捅捆捉捋捌捍捎捏捐捕捞损捡换捣捧捩捭据捯捶捷捺捻捽掀掂掇授掉掊掌掎掏掐排掖掘掞掠探掣接控推掩措掬掭掮掰掳掴掷掸掺掼掾揄揆揉揍描提插揕揖揠握揣揩揪揭揳援揶揸揽揿搀搁搂搅搋搌搏搐搒搓搔搛搜搞搠搡搦搪搬搭搴携搽摁摄摅摆摇摈摊摏摒摔摘摛摞摧摩摭摴摸摹摽撂撄撅撇撑撒撕撖撙撞撤撩撬播撮撰撵撷撸撺撼擀擂擅操擎擐擒擘擞擢擤擦擿攀攉攒攘攥攫攮支收攸改攻攽放政故效敉敌敏救敔敕敖教敛敝敞敢散敦敩敫敬数敲整敷文斋斌斐斑斓斗料斛斜斝斟斠斡斤斥斧斩斫断斯新斶方於施旁旃旄旅旆旋旌旎族旐旒旖旗旞无既日旦旧旨早旬旭旮旯旰旱旴旵时旷旸旺旻旿昀昂昃昄昆昇昈昉昊昌明昏昒易昔昕昙昝星映昡昣昤春昧昨昪昫昭是昱昳昴昵昶昺昼昽显晁晃晅晊晋晌晏晐晒晓晔晕晖晗晙晚晞晟晡晢晤晦晨晪晫普景晰晱晴晶晷智晾暂暄暅暇暌暑暕暖暗暝暧暨暮暲暴暵暶暹暾暿曈曌曙曛曜曝曦曩曰曲曳更曷曹曼曾替最月有朋服朏朐朓朔朕朗望朝期朦木未末本札术朱朳朴朵朸机朽杀杂权杄杆杈杉杌李杏材村杓杕杖杙杜杞束杠条来杧杨杩杪杭杯杰杲杳杵杷杻杼松板极构枅枇枉枋枍析枕林枘枚果枝枞枢枣枥枧枨枪枫枭枯枰枲枳枵架枷枸枹柁柃柄柈柊柏某柑柒染柔柖柘柙柚柜柝柞柠柢查柩柬柯柰柱柳柴柷柽柿栀栅标栈栉栊栋栌栎栏栐树栒栓栖栗栝栟校栩株栲栳栴样核根栻格栽栾桀桁桂桃桄桅框案桉桊桌桎桐桑桓桔桕桠桡桢档桤桥桦桧桨桩桫桯桲桴桶桷桹梁梃梅梆梌梏梓梗梠梢梣梦梧梨梭梯械梳梴梵梼梽梾梿检棁棂棉棋棍棐棒棓棕棘棚棠棣棤棨棪棫棬森棰棱棵棹棺棻棼棽椀椁椅椆椋植椎椐椑椒椓椟椠椤椪椭椰椴椸椹椽椿楂楒楔楗楙楚楝楞楠楣楦楩楪楫楮楯楷楸楹楼概榃榄榅榆榇榈榉榍榑榔榕榖榛榜榧榨榫榭榰榱榴榷榻槁槃槊槌槎槐槔槚槛槜槟槠槭槱槲槽槿樊樗樘樟模樨横樯樱樵樽樾橄橇橐橑橘橙橛橞橡橥橦橱橹橼檀檄檎檐檑檗檞檠檩檫檬櫆欂欠次欢欣欤欧欲欸欹欺欻款歃歅歆歇歉歌歙止正此步武歧歪歹死歼殁殂殃殄殆殇殉殊残殍殒殓殖殚殛殡殣殪殳殴段殷殿毁毂毅毋毌母每毐毒毓比毕毖毗毙毛毡毪毫毯毳毵毹毽氅氆氇氍氏氐民氓气氕氖氘氙氚氛氟氡氢氤氦氧氨氩氪氮氯氰氲水永氾氿汀汁求汆汇汈汉汊汋汐汔汕汗汛汜汝汞江池污汤汧汨汩汪汫汭汰汲汴汶汹汽汾沁沂沃沄沅沆沇沈沉沌沏沐沓沔沘沙沚沛沟没沣沤沥沦沧沨沩沪沫沭沮沱河沸油沺治沼沽沾沿泂泃泄泅泇泉泊泌泐泓泔法泖泗泙泚泛泜泞泠泡波泣泥注泪泫泮泯泰泱泳泵泷泸泺泻泼泽泾洁洄洇洈洋洌洎洑洒洓洗洘洙洚洛洞洢洣津洧洨洪洫洭洮洱洲洳洴洵洸洹洺活洼洽派洿流浃浅浆浇浈浉浊测浍济浏浐浑浒浓浔浕浙浚浛浜浞浟浠浡浣浥浦浩浪浬浭浮浯浰浲浴海浸浼涂涄涅消涉涌涍涎涐涑涓涔涕涘涛涝涞涟涠涡涢涣涤润涧涨涩涪涫涮涯液涴涵涸涿淀淄淅淆淇淋淌淏淑淖淘淙淜淝淞淟淠淡淤淦淫淬淮淯深淳淴混淹添淼清渊渌渍渎渐渑渔渗渚渝渟渠渡渣渤渥温渫渭港渰渲渴游渺渼湃湄湉湍湎湑湓湔湖湘湛湜湝湟湣湫湮湲湴湾湿溁溃溅溆溇溉溍溏源溘溚溜溞溟溠溢溥溦溧溪溯溱溲溴溵溶溷溹溺溻溽滁滂滃滆滇滉滋滍滏滑滓滔滕滗滘滚滞滟滠满滢滤滥滦滧滨滩滪滫滴滹漂漆漈漉漋漏漓演漕漖漠漤漦漩漪漫漭漯漱漳漴漶漷漹漻漼漾潆潇潋潍潏潖潘潜潞潟潢潦潩潭潮潲潴潵潸潺潼潽潾澂澄澈澉澌澍澎澛澜澡澥澧澪澭澳澴澶澹澼澽激濂濉濋濑濒濞濠濡濩濮濯瀌瀍瀑瀔瀚瀛瀣瀱瀵瀹瀼灈灌灏灞火灭灯灰灵灶灸灼灾灿炀炅炆炉炊炌炎炒炔炕炖炘炙炜炝炟炣炫炬炭炮炯炱炳炷炸点炻炼炽烀烁烂烃烈烊烔烘烙烛烜烝烟烠烤烦烧烨烩烫烬热烯烶烷烹烺烻烽焆焉焊焌焐焓焕焖焗焘焙焚焜焞焦焯焰焱然煁煃煅煊煋煌煎煓煜煞煟煤煦照煨煮煲煳煴煸煺煽熄熇熊熏熔熘熙熛熜熟熠熥熨熬熵熹熻燃燊燋燎燏燔燕燚燠燥燧燮燹爆爇爔爚爝爟爨爪爬爰爱爵父爷爸爹爻爽爿牁牂片版牌牍牒牖牙牚牛牝牟牡牢牤牥牦牧物牮牯牲牵特牺牻牾牿犀犁犄犇犊犋犍犏犒犟犨犬犯犰犴状犷犸犹狁狂狃狄狈狉狍狎狐狒狗狙狝狞狠狡狨狩独狭狮狯狰狱狲狳狴狷狸狺狻狼猁猃猄猇猊猎猕猖猗猛猜猝猞猡猢猥猩猪猫猬献猯猰猱猴猷猹猺猾猿獍獐獒獗獠獬獭獯獴獾玃玄率玉王玎玑玒玓玕玖玘玙玚玛玞玟玠玡玢玤玥玦玩玫玭玮环现玱玲玳玶玷玹玺玻玼玿珀珂珅珇珈珉珊珋珌珍珏珐珑珒珕珖珙珛珝珞珠珢珣珥珦珧珩珪珫班珰珲珵珷珸珹珺珽琀球琄琅理琇琈琉琊琎琏琐琔琚琛琟琡琢琤琥琦琨琪琫琬琭琮琯琰琲琳琴琵琶琼瑀瑁瑂瑃瑄瑅瑆瑑瑓瑔瑕瑖瑗瑙瑚瑛瑜瑝瑞瑟瑢瑧瑨瑬瑭瑰瑱瑳瑶瑷瑾璀璁璃璆璇璈璋璎璐璒璘璜璞璟璠璥璧璨璩璪璬璮璱璲璺瓀瓒瓖瓘瓜瓞瓠瓢瓣瓤瓦瓮瓯瓴瓶瓷瓻瓿甄甍甏甑甓甗甘甚甜生甡甥甦用甩甪甫甬甭甯田由甲申电男甸町画甾畀畅畈畋界畎畏畔畖留畚畛畜畤略畦番畬畯畲畴畸畹畿疁疃疆疍疏疐疑疔疖疗疙疚疝疟疠疡疢疣疤疥疫疬疭疮疯疰疱疲疳疴疵疸疹疼疽疾痂痃痄病症痈痉痊痍痒痓痔痕痘痛痞痢痣痤痦痧痨痪痫痰痱痴痹痼痿瘀瘁瘃瘅瘆瘊瘌瘐瘕瘗瘘瘙瘛瘟瘠瘢瘤瘥瘦瘩瘪瘫瘭瘰瘳瘴瘵瘸瘼瘾瘿癀癃癌癍癔癖癗癜癞癣癫癯癸登白百癿皂的皆皇皈皋皎皑皓皕皖皙皛皞皤皦皭皮皱皲皴皿盂盅盆盈盉益盍盎盏盐监盒盔盖盗盘盛盟盥盦目盯盱盲直盷相盹盼盾省眄眇眈眉眊看眍眙眚真眠眢眦眨眩眬眭眯眵眶眷眸眺眼着睁睃睄睇睎睐睑睚睛睡睢督睥睦睨睫睬睹睽睾睿瞀瞄瞅瞋瞌瞍瞎瞑瞒瞟瞠瞢瞥瞧瞩瞪瞫瞬瞭瞰瞳瞵瞻瞽瞿矍矗矛矜矞矢矣知矧矩矫矬短矮矰石矶矸矻矼矾矿砀码砂砄砆砉砌砍砑砒研砖砗砘砚砜砝砟砠砣砥砧砫砬砭砮砰破砵砷砸砹砺砻砼砾础硁硅硇硊硌硍硎硐硒硔硕硖硗硙硚硝硪硫硬硭确硼硿碃碇碈碉碌碍碎碏碑碓碗碘碚碛碜碟碡碣碥碧碨碰碱碲碳碴碶碹碾磁磅磉磊磋磏磐磔磕磙磜磡磨磬磲磴磷磹磻礁礅礌礓礞礴礵示礼社祀祁祃祆祇祈祉祊祋祎祏祐祓祕祖祗祚祛祜祝神祟祠祢祥祧票祭祯祲祷祸祺祼祾禀禁禄禅禊禋福禒禔禘禚禛禤禧禳禹禺离禽禾秀私秃秆秉秋种科秒秕秘租秣秤秦秧秩秫秬秭积称秸移秽秾稀稂稃稆程稌稍税稑稔稗稙稚稞稠稣稳稷稹稻稼稽稿穄穆穑穗穙穜穟穰穴究穷穸穹空穿窀突窃窄窅窈窊窍窎窑窒窕窖窗窘窜窝窟窠窣窥窦窨窬窭窳窸窿立竑竖竘站竞竟章竣童竦竫竭端竹竺竽竿笃笄笆笈笊笋笏笑笔笕笙笛笞笠笤笥符笨笪笫第笮笯笱笳笸笺笼笾筀筅筇等筋筌筏筐筑筒答策筘筚筛筜筝筠筢筤筥筦筮筱筲筵筶筷筹筻筼签简箅箍箐箓箔箕箖算箜管箢箦箧箨箩箪箫箬箭箱箴箸篁篆篇篌篑篓篙篚篝篡篥篦篪篮篯篱篷篼篾簃簇簉簋簌簏簕簖簝簟簠簧簪簰簸簿籀籁籍籥米籴类籼籽粉粑粒粕粗粘粜粝粞粟粢粤粥粪粮粱粲粳粹粼粽精粿糁糅糇糈糊糌糍糒糕糖糗糙糜糟糠糨糯糵系紊素索紧紫累絜絮絷綦綮縠縢縻繁繄繇纂纛纠纡红纣纤纥约级纨纩纪纫纬纭纮纯纰纱纲纳纴纵纶纷纸纹纺纻纼纽纾线绀绁绂练组绅细织终绉绊绋绌绍绎经绐绑绒结绔绕绖绗绘给绚绛络绝绞统绠绡绢绣绤绥绦继绨绩绪绫续绮绯绰绱绲绳维绵绶绷绸绹绺绻综绽绾绿缀缁缂缃缄缅缆缇缈缉缊缌缎缐缑缒缓缔缕编缗缘缙缚缛缜缝缞缟缠缡缢缣缤缥缦缧缨缩缪缫缬缭缮缯缰缱缲缳缴缵缶缸缺罂罄罅罍罐网罔罕罗罘罚罟罡罢罨罩罪置罱署罴罶罹罽罾羁羊羌美羑羓羔羕羖羚羝羞羟羡群羧羯羰羱羲羸羹羼羽羿翀翁翂翃翅翈翊翌翎翔翕翘翙翚翛翟翠翡翥翦翩翮翯翰翱翳翷翻翼翾耀老考耄者耆耇耋而耍耏耐耑耒耔耕耖耗耘耙耜耠耢耤耥耦耧耨耩耪耰耱耳耵耶耷耸耻耽耿聂聃聆聊聋职聍聒联聘聚聩聪聱聿肃肄肆肇肉肋肌肓肖肘肚肛肝肟肠股肢肤肥肩肪肫肭肮肯肱育肴肷肸肺肼肽肾肿胀胁胂胃胄胆胈背胍胎胖胗胙胚胛胜胝胞胠胡胣胤胥胧胨胩胪胫胬胭胯胰胱胲胳胴胶胸胺胼能脂脆脉脊脍脎脏脐脑脒脓脔脖脘脚脞脟脩脬脯脱脲脶脸脾脿腆腈腊腋腌腐腑腒腓腔腕腘腙腚腠腥腧腨腩腭腮腯腰腱腴腹腺腻腼腽腾腿膀膂膈膊膏膑膘膙膛膜膝膦膨膳膺膻臀臂臃臆臊臌臑臜臣臧自臬臭至致臻臼臾舀舁舂舄舅舆舌舍舐舒舔舛舜舞舟舠舢舣舥航舫般舭舯舰舱舲舳舴舵舶舷舸船舻舾艄艅艇艉艋艎艏艘艚艟艨艮良艰色艳艴艺艽艾艿节芃芄芈芊芋芍芎芏芑芒芗芘芙芜芝芟芠芡芣芤芥芦芨芩芪芫芬芭芮芯芰花芳芴芷芸芹芼芽芾苁苄苇苈苉苊苋苌苍苎苏苑苒苓苔苕苗苘苛苜苞苟苠苡苣苤若苦苧苫苯英苴苷苹苻苾茀茁茂范茄茅茆茈茉茋茌茎茏茑茓茔茕茗茚茛茜茝茧茨茫茬茭茯茱茳茴茵茶茸茹茺茼茽荀荁荃荄荆荇草荏荐荑荒荓荔荖荙荚荛荜荞荟荠荡荣荤荥荦荧荨荩荪荫荬荭荮药荷荸荻荼荽莅莆莉莎莒莓莘莙莛莜莝莞莠莨莩莪莫莰莱莲莳莴莶获莸莹莺莼莽莿菀菁菂菅菇菉菊菌菍菏菔菖菘菜菝菟菠菡菥菩菪菰菱菲菹菼菽萁萃萄萆萋萌萍萎萏萑萘萚萜萝萣萤营萦萧萨萩萱萳萸萹萼落葆葎葑葖著葙葚葛葜葡董葩葫葬葭葰葱葳葴葵葶葸葺蒂蒄蒇蒈蒉蒋蒌蒎蒐蒗蒙蒜蒟蒡蒨蒯蒱蒲蒴蒸蒹蒺蒻蒽蒿蓁蓂蓄蓇蓉蓊蓍蓏蓐蓑蓓蓖蓝蓟蓠蓢蓣蓥蓦蓬蓰蓼蓿蔀蔃蔈蔊蔌蔑蔓蔗蔚蔟蔡蔫蔬蔷蔸蔹蔺蔻蔼蔽蕃蕈蕉蕊蕖蕗蕙蕞蕤蕨蕰蕲蕴蕹蕺蕻蕾薁薄薅薇薏薛薜薢薤薨薪薮薯薰薳薷薸薹薿藁藉藏藐藓藕藜藟藠藤藦藨藩藻藿蘅蘑蘖蘘蘧蘩蘸蘼虎虏虐虑虒虓虔虚虞虢虤虫虬虮虱虷虸虹虺虻虼虽虾虿蚀蚁蚂蚄蚆蚊蚋蚌蚍蚓蚕蚜蚝蚣蚤蚧蚨蚩蚪蚬蚯蚰蚱蚲蚴蚶蚺蛀蛃蛄蛆蛇蛉蛊蛋蛎蛏蛐蛑蛔蛘蛙蛛蛞蛟蛤蛩蛭蛮蛰蛱蛲蛳蛴蛸蛹蛾蜀蜂蜃蜇蜈蜉蜊蜍蜎蜐蜒蜓蜕蜗蜘蜚蜜蜞蜡蜢蜣蜥蜩蜮蜱蜴蜷蜻蜾蜿蝇蝈蝉蝌蝎蝓蝗蝘蝙蝠蝣蝤蝥蝮蝰蝲蝴蝶蝻蝼蝽蝾螂螃螅螈螋融螗螟螠螣螨螫螬螭螯螱螳螵螺螽蟀蟆蟊蟋蟏蟑蟒蟛蟠蟥蟪蟫蟮蟹蟾蠃蠊蠋蠓蠕蠖蠡蠢蠲蠹蠼血衃衄衅行衍衎衒衔街衙衠衡衢衣补表衩衫衬衮衰衲衷衽衾衿袁袂袄袅袆袈袋袍袒袖袗袜袢袤袪被袭袯袱袷袼裁裂装裆裈裉裎裒裔裕裘裙裛裟裢裣裤裥裨裰裱裳裴裸裹裼裾褂褊褐褒褓褕褙褚褛褟褡褥褪褫褯褰褴褶襁襄襕襚襜襞襟襦襫襻西要覃覆见观觃规觅视觇览觉觊觋觌觎觏觐觑角觖觚觜觞觟解觥触觫觭觯觱觳觿言訄訇訚訾詈詟詹誉誊誓謇警譬计订讣认讥讦讧讨让讪讫训议讯记讱讲讳讴讵讶讷许讹论讻讼讽设访诀证诂诃评诅识诇诈诉诊诋诌词诎诏诐译诒诓诔试诖诗诘诙诚诛诜话诞诟诠诡询诣诤该详诧诨诩诫诬语诮误诰诱诲诳说诵请诸诹诺读诼诽课诿谀谁谂调谄谅谆谇谈谊谋谌谍谎谏谐谑谒谓谔谕谖谗谙谚谛谜谝谞谟谠谡谢谣谤谥谦谧谨谩谪谫谬谭谮谯谰谱谲谳谴谵谶谷谼谿豁豆豇豉豌豕豚象豢豨豪豫豮豳豸豹豺貂貅貆貉貊貌貔貘贝贞负贡财责贤败账货质贩贪贫贬购贮贯贰贱贲贳贴贵贶贷贸费贺贻贼贽贾贿赀赁赂赃资赅赆赇赈赉赊赋赌赍赎赏赐赑赒赓赔赕赖赗赘赙赚赛赜赝赞赟赠赡赢赣赤赦赧赪赫赭走赳赴赵赶起趁趄超越趋趑趔趟趣趯趱足趴趵趸趺趼趾趿跂跃跄跆跋跌跎跏跐跑跖跗跚跛距跞跟跣跤跨跪跬路跱跳践跶跷跸跹跺跻跽踅踉踊踌踏踒踔踝踞踟踢踣踦踩踪踬踮踯踱踵踶踹踺踽蹀蹁蹂蹄蹅蹇蹈蹉蹊蹋蹐蹑蹒蹙蹚蹜蹢蹦蹩蹬蹭蹯蹰蹲蹴蹶蹼蹽蹾蹿躁躅躇躏躐躔躜躞身躬躯躲躺车轧轨轩轪轫转轭轮软轰轱轲轳轴轵轶轷轸轹轺轻轼载轾轿辀辁辂较辄辅辆辇辈辉辊辋辌辍辎辏辐辑辒输辔辕辖辗辘辙辚辛辜辞辟辣辨辩辫辰辱边辽达辿迁迂迄迅过迈迎运近迓返迕还这进远违连迟迢迤迥迦迨迩迪迫迭迮述迳迷迸迹迺追退送适逃逄逅逆选逊逋逍透逐逑递途逖逗通逛逝逞速造逡逢逦逭逮逯逴逵逶逸逻逼逾遁遂遄遆遇遍遏遐遑遒道遗遘遛遢遣遥遨遭遮遴遵遹遽避邀邂邃邈邋邑邓邕邗邘邙邛邝邠邡邢那邦邨邪邬邮邯邰邱邲邳邴邵邶邸邹邺邻邽邾邿郁郃郄郅郇郈郊郎郏郐郑郓郗郚郛郜郝郡郢郤郦郧部郪郫郭郯郴郸都郾郿鄀鄂鄃鄄鄅鄌鄑鄗鄘鄙鄚鄜鄞鄠鄢鄣鄫鄯鄱鄹酂酃酅酆酉酊酋酌配酎酏酐酒酗酚酝酞酡酢酣酤酥酦酩酪酬酮酯酰酱酲酴酵酶酷酸酹酺酽酾酿醅醇醉醋醌醍醐醑醒醚醛醢醨醪醭醮醯醴醵醺醾采釉释里重野量釐金釜鉴銎銮鋆鋈錾鍪鎏鏊鏖鐾鑫钆钇针钉钊钋钌钍钎钏钐钒钓钔钕钖钗钘钙钚钛钜钝钞钟钠钡钢钣钤钥钦钧钨钩钪钫钬钭钮钯钰钱钲钳钴钵钷钹钺钻钼钽钾钿铀铁铂铃铄铅铆铈铉铊铋铌铍铎铏铐铑铒铕铖铗铘铙铚铛铜铝铞铟铠铡铢铣铤铥铧铨铩铪铫铬铭铮铯铰铱铲铳铴铵银铷铸铹铺铻铼铽链铿销锁锂锃锄锅锆锇锈锉锊锋锌锍锎锏锐锑锒锓锔锕锖锗锘错锚锛锜锝锞锟锡锢锣锤锥锦锧锨锩锪锫锬锭键锯锰锱锲锳锴锵锶锷锸锹锺锻锼锽锾锿镀镁镂镃镄镅镆镇镈镉镊镋镌镍镎镏镐镑镒镓镔镕镖镗镘镚镛镜镝镞镠镡镢镣镤镥镦镧镨镩镪镫镬镭镮镯镰镱镲镳镴镵镶长门闩闪闫闭问闯闰闱闲闳间闵闶闷闸闹闺闻闼闽闾闿阀阁阂阃阄阅阆阇阈阉阊阋阌阍阎阏阐阑阒阔阕阖阗阘阙阚阜队阡阪阮阱防阳阴阵阶阻阼阽阿陀陂附际陆陇陈陉陋陌降陎限陑陔陕陛陞陟陡院除陧陨险陪陬陲陴陵陶陷隃隅隆隈隋隍随隐隔隗隘隙障隧隩隰隳隶隹隺隼隽难雀雁雄雅集雇雉雊雌雍雎雏雒雕雠雨雩雪雯雱雳零雷雹雾需霁霄霅霆震霈霉霍霎霏霓霖霜霞霨霪霭霰露霸霹霾青靓靖静靛非靠靡面靥革靬靰靳靴靶靸靺靼靽靿鞁鞅鞋鞍鞑鞒鞔鞘鞠鞡鞣鞧鞨鞫鞬鞭鞮鞯鞲鞳鞴韂韦韧韨韩韪韫韬韭音韵韶页顶顷顸项顺须顼顽顾顿颀颁颂颃预颅领颇颈颉颊颋颌颍颎颏颐频颓颔颖颗题颙颚颛颜额颞颟颠颡颢颤颥颦颧风飏飐飑飒飓飔飕飗飘飙飞食飧飨餍餐餮饔饕饥饧饨饩饪饫饬饭饮饯饰饱饲饳饴饵饶饷饸饹饺饻饼饽饿馁馃馄馅馆馇馈馉馊馋馌馍馏馐馑馒馓馔馕首馗馘香馝馞馥馧馨马驭驮驯驰驱驲驳驴驵驶驷驸驹驺驻驼驽驾驿骀骁骂骃骄骅骆骇骈骉骊骋验骍骎骏骐骑骒骓骕骖骗骘骙骚骛骜骝骞骟骠骡骢骣骤骥骦骧骨骰骱骶骷骸骺骼髀髁髂髃髅髋髌髎髑髓高髡髢髦髫髭髯髹髻髽鬃鬈鬏鬒鬓鬘鬟鬣鬯鬲鬶鬷鬻鬼魁魂魃魄魅魆魇魈魉魋魍魏魑魔鱼鱽鱾鱿鲀鲁鲂鲃鲅鲆鲇鲈鲉鲊鲋鲌鲍鲎鲏鲐鲑鲒鲔鲕鲖鲗鲘鲙鲚鲛鲜鲝鲞鲟鲠鲡鲢鲣鲤鲥鲦鲧鲨鲩鲪鲫鲬鲭鲮鲯鲰鲱鲲鲳鲴鲵鲷鲸鲹鲺鲻鲼鲽鲾鲿鳀鳁鳂鳃鳄鳅鳇鳈鳉鳊鳌鳍鳎鳏鳐鳑鳒鳓鳔鳕鳖鳗鳘鳙鳚鳛鳜鳝鳞鳟鳠鳡鳢鳣鳤鸟鸠鸡鸢鸣鸤鸥鸦鸧鸨鸩鸪鸫鸬鸭鸮鸯鸰鸱鸲鸳鸵鸶鸷鸸鸹鸺鸻鸼鸽鸾鸿鹀鹁鹂鹃鹄鹅鹆鹇鹈鹉鹊鹋鹌鹍鹎鹏鹐鹑鹒鹔鹕鹖鹗鹘鹙鹚鹛鹜鹝鹞鹟鹠鹡鹢鹣鹤鹦鹧鹨鹩鹪鹫鹬鹭鹮鹯鹰鹱鹲鹳鹴鹾鹿麀麂麇麈麋麑麒麓麖麝麟麦麸麹麻麽麾黄黇黉黍黎黏黑黔默黛黜黝黟黠黡黢黥黧黩黪黯黹黻黼黾鼋鼍鼎鼐鼒鼓鼗鼙鼠鼢鼩鼫鼬鼯鼱鼷鼹鼻鼽鼾齁齇齉齐齑齿龀龁龂龃龄龅龆龇龈龉龊龋龌龙龚龛龟龠龢鿍鿎鿏㑇㑊㕮㘎㙍㙘㙦㛃㛚㛹㟃㠇㠓㤘㥄㧐㧑㧟㫰㬊㬎㬚㭎㭕㮾㰀㳇㳘㳚㴔㵐㶲㸆㸌㺄㻬㽏㿠䁖䂮䃅䃎䅟䌹䎃䎖䏝䏡䏲䐃䓖䓛䓨䓫䓬䗖䗛䗪䗴䜣䝙䢺䢼䣘䥽䦃䲟䲠䲢䴓䴔䴕䴖䴗䴘䴙䶮𠅤𠙶𠳐𡎚𡐓𣗋𣲗𣲘𣸣𤧛𤩽𤫉𥔲𥕢𥖨𥻗𦈡𦒍𦙶𦝼𦭜𦰡𧿹𨐈𨙸𨚕𨟠𨭉𨱇𨱏𨱑𨱔𨺙𩽾𩾃𩾌𪟝𪣻𪤗𪨰𪨶𪩘𪾢𫄧𫄨𫄷𫄸𫇭𫌀𫍣𫍯𫍲𫍽𫐄𫐐𫐓𫑡𫓧𫓯𫓶𫓹𫔍𫔎𫔶𫖮𫖯𫖳𫗧𫗴𫘜𫘝𫘦𫘧𫘨𫘪𫘬𫚕𫚖𫚭𫛭𫞩𫟅𫟦𫟹𫟼𫠆𫠊𫠜𫢸𫫇𫭟𫭢𫭼𫮃𫰛𫵷𫶇𫷷𫸩𬀩𬀪𬂩𬃊𬇕𬇙𬇹𬉼𬊈𬊤𬌗𬍛𬍡𬍤𬒈𬒔𬒗𬕂𬘓𬘘𬘡𬘩𬘫𬘬𬘭𬘯𬙂𬙊𬙋𬜬𬜯𬞟𬟁𬟽𬣙𬣞𬣡𬣳𬤇𬤊𬤝𬨂𬨎𬩽𬪩𬬩𬬭𬬮𬬱𬬸𬬹𬬻𬬿𬭁𬭊𬭎𬭚𬭛𬭤𬭩𬭬𬭯𬭳𬭶𬭸𬭼𬮱𬮿𬯀𬯎𬱖𬱟𬳵𬳶𬳽𬳿𬴂𬴃𬴊𬶋𬶍𬶏𬶐𬶟𬶠𬶨𬶭𬶮𬷕𬸘𬸚𬸣𬸦𬸪𬹼𬺈𬺓"""
CHARSET_EXT = """吶囧屄屌诶飚"""
TEAMS = """阿富汗
阿尔巴尼亚
阿尔及利亚
美属萨摩亚
安道尔
安哥拉
安圭拉岛
南极洲
安提瓜和巴布达
阿根廷
亚美尼亚
阿鲁巴岛
澳大利亚
奥地利
阿塞拜疆
巴哈马
巴林
孟加拉国
巴巴多斯
白俄罗斯
比利时
伯利兹
贝宁
百慕大
不丹
玻利维亚
波斯尼亚和黑塞哥维那
博茨瓦纳
巴西
英属印度洋领地
英属维尔京群岛
文莱
保加利亚
布基纳法索
缅甸
布隆迪
柬埔寨
喀麦隆
加拿大
佛得角
开曼群岛
中非共和国
乍得
智利
中国
圣诞岛
克利珀顿岛
科科斯群岛
哥伦比亚
科摩罗
刚果民主共和国
刚果共和国
库克群岛
珊瑚海群岛
哥斯达黎加
科特迪瓦
克罗地亚
古巴
塞浦路斯
捷克共和国
丹麦
吉布地
多米尼克
多明尼加共和国
厄瓜多尔
埃及
萨尔瓦多
赤道几内亚
厄立特里亚
爱沙尼亚
埃塞俄比亚
欧罗巴岛
福克兰群岛
法罗群岛
斐济
芬兰
法国
法属圭亚那
法属波利尼西亚
加蓬
冈比亚
乔治亚
德国
加纳
直布罗陀
格洛里厄斯群岛
希腊
格陵兰
格林纳达
瓜德罗普岛
关岛
危地马拉
根西岛
几内亚
几内亚比绍
圭亚那
海地
梵蒂冈城
洪都拉斯
匈牙利
冰岛
印度
印度尼西亚
伊朗
伊拉克
爱尔兰
马恩岛
以色列
意大利
牙买加
扬马延岛
日本
泽西岛
约旦
新胡安岛
哈萨克斯坦
肯尼亚
基里巴斯
科威特
吉尔吉斯斯坦
老挝
拉脱维亚
黎巴嫩
莱索托
利比里亚
利比亚
列支敦士登
立陶宛
卢森堡
马其顿
马达加斯加
马拉维
马来西亚
马尔代夫
马里
马耳他
马绍尔群岛
马提尼克岛
毛里塔尼亚
毛里求斯
马约特岛
墨西哥
密克罗尼西亚联邦
摩尔多瓦
摩纳哥
蒙古
蒙特塞拉特
摩洛哥
莫桑比克
纳米比亚
瑙鲁
纳瓦萨岛
尼泊尔
荷兰
荷属安的列斯
新喀里多尼亚
新西兰
尼加拉瓜
尼日尔
尼日利亚
纽埃
诺福克岛
朝鲜
北马里亚纳群岛
挪威
阿曼
巴基斯坦
帕劳
巴拿马
巴布亚新几内亚
西沙群岛
巴拉圭
秘鲁
菲律宾
皮特凯恩群岛
波兰
葡萄牙
波多黎各
卡塔尔
留尼汪
罗马尼亚
俄罗斯
卢旺达
圣赫勒拿岛
圣基茨和尼维斯
圣卢西亚岛
圣皮埃尔和密克隆群岛
圣文森特和格林纳丁斯
萨摩亚
圣马力诺
圣多美和普林西比
沙特阿拉伯
塞内加尔
塞尔维亚和黑山
塞舌尔群岛
塞拉利昂
新加坡
斯洛伐克
斯洛文尼亚
所罗门群岛
索马里
南非
韩国
西班牙
南沙群岛
斯里兰卡
苏丹
苏里南
斯瓦尔巴群岛
斯威士兰
瑞典
瑞士
叙利亚
塔吉克斯坦
坦桑尼亚
泰国
东帝汶
多哥
托克劳
汤加
特立尼达和多巴哥
特罗姆兰岛
突尼斯
土耳其
土库曼斯坦
特克斯和凯科斯群岛
图瓦卢
乌干达
乌克兰
阿拉伯联合酋长国
英国
美国
乌拉圭
乌兹别克斯坦
瓦努阿图
委内瑞拉
越南
维尔京群岛
威克岛
瓦利斯和富图纳群岛
西撒哈拉
也门
赞比亚
津巴布韦
爆冷
1948中央陆军
1975学院
AB阿吉尔
AC奥卢
AC米兰
AEK拉亚拿卡
AEK雅典
AEL利马素
AIK苏纳
ASO谢里夫
B36拖锡云
B68托夫蒂尔
拉多姆利
BOG史崔克
CDS维达
CD奥林比亚
CD柏拉坦斯
CD皇家苏斯达
CD维多利亚
CD维拉克鲁斯
斯特雷穆尔
FA希奥利艾
FC东京
FC光州
FC利沃夫
FC古斯哥
FC圣达哥林玛
FC奥斯汀
FC婆罗洲
FC悉尼
FC洛杉矶
FC萨莫拿
FC辛辛那提
FC达拉斯
FC首尔
FK奥达
HB拖锡云
HIFK赫尔辛基
HJK赫尔辛基
LOA热力
MC奥兰
MC阿尔及尔
MKE安卡华高古
NAPA流浪者
NA侯赛恩
NEC奈梅亨
NSI鲁纳维克
OFI克里特
PAOK
PSIS施马隆
PSM马卡沙尔
PSS施莱曼
PSV埃因霍温
PTT罗勇
RFC瑟兰
RKC华域克
SC巴塞罗那
SK超级星
TC体育会
TIRA佩斯卡保
UE圣达哥林玛
UE恩高丹
UNAM普马斯
UOG崔坦
USM阿尔及尔
USV伊斯琛
VPS瓦萨
WSG蒂罗尔尔
万象
万隆
上国狮子
上海海港
上海申花
下科恩
下诺夫哥罗德
不丹皇家星队
不丹皇家波尔
不丹皇家联
不丹结算所
东北文化协会
东北联
东宾高
东方石油
东方龙狮
东部市郊
东里法
两国体育
中央科尔多瓦
中日德兰
中部海岸海员
丹戎巴葛联
久加斯
乌坚学院
乌姆沙拉尔
乌巴赫
乌得勒支
乌拉尔
乌拉尔图
乌比斯迪
乌纳尼亚
乌路柏
乌路柏点
乌迪内斯
云达不来梅
亚历山德里亚
亚松森河床
亚特兰大
亚美利加
亚蒙克
亚达纳邦
亨切什蒂
京都不死鸟
仁川联
从山谷独立
以斯拉
仰光联
伊卜伊蒂哈德
伊卜艾薛伯
伊安尼高斯
伊尔韦斯
伊斯兰教体育俱乐部
伊斯坦布尔
伊斯洛奇明斯克
伊斯特拉
伊洛瓦底联
伊纳迪亚
伊蒂哈德
伊蒂哈德亚历山大港
伊蒂哈德塞拉莱
伊蒂法克
伊高斯
伍尔弗汉普顿流浪者
伏伊伏丁那
伯恩茅斯
佐加顿斯
体操击剑队
体育男
佛罗伦萨
佩历克
佩尼亚恩卡纳达
佩尼邦
佩斯拉查
佩斯普拉
佩斯查雅加达
佩斯达
佩特捷德
佩西克
佩西拉
依斯麦里
侯斯顿迪纳摩
侯治柏度
侯赛恩
保查
保迪夫
保迪夫华特沙
保迪祖域斯
兄弟联
兄弟联队
先锋体育团
克卢日
克卢日大学
克拉斯诺达尔
克拉科维亚
克莱蒙特
克里夫巴斯
克雷莫纳
全北现代汽车
八打灵再也城
公马内湖
兰斯
兰讷斯
关岛造船厂
兴都库什雄鹰
内姆梅卡柳
冠忠南区
凡恩
凤凰竞技
凯尔任
凯尔特人
切尔西
切洛
切洛拉高
列文科尼茨
列治亚
列特
列积卡
列达利亚尔
利云斯顿
利伯泰迪
利伯达斯
利兹联
利加大学
利勒斯特罗姆
利华戴亚高斯
利尔
利尔马卡萨
利文哥特奴
利斯菲体育俱乐部
利沃夫鲁克
利物浦
利瓦迪亚
利耶帕亚
利马联
加义
加尔各答体育会
加巴拉
加拉塔萨雷
加斯安塔
加格拉
加的夫都市大学
加的斯
加薛耶查柏
勒沃库森
化奴
北京国安
北海道札幌冈萨多
北西兰
十字军
十月9FC
十月十二日队
华列达
华利祖大学
华堡
华拉斯
华拉萨甸
华沙莱吉亚
华盛顿联队
华纳斯巴达
华纳莫
华维斯
华路亚
华达普斯纳
南安普顿
南定
南特
南缅甸联
博亚卡捷高
博德闪耀
博托沙尼
博格巴索华
博洛尼亚
博维斯塔
卡内米勇士
卡利
卡利阿美利加
卡华拉联
卡图高比斯
卡域克流浪
卡塔尔体育会
卡塞利
卡奥诺萨基利兹
卡宾达
卡尔巴
卡尔马
卡布斯科普
卡拉保保
卡拉卡斯
卡拉古拉克
卡拉奥华大学
卡拉奥华大学1948
卡拉巴克
卡拉干达
卡拉特
卡拉雷联
卡拉马
卡拜里
卡斯比
卡斯特里堤
卡斯马
卡查马卡大学
卡森柏沙
卡洛斯文路斯
卡米奥提萨
卡萨比亚
卡诺支柱
卡贝略港大学
卡路士斯汀
卡达斯
卡那芬
卡阿拉
卡雅
卡齐纳联
卢加诺
卢塞恩
卢多格德斯
卢旺达国际
卢旺达石油
印度箭头
厄尔布尔士神鸟
历基尼亚
古亚巴
古亚连拿
古卡历基
古泰斯鱼雷
古达加联
古里高联
台中Futuro
台北竞技
台南市台湾钢铁
台湾电力
台湾石虎
史塔米列克
史路加多博伊
史达兰
吉大港阿巴罕尼
吉打
吉达艾阿里
吉隆坡联
吉马良斯
名古屋鲸鱼
名誉
后港联
君士坦丁
和富大埔
咸仑斯巴坦
咸卡
哈伊杜克
哈卡
哈塔斯堡
哈夫纳夫约杜尔
哈密尔顿流浪者
哈尔迪亚
哈尼联足球会
哈特兰德
哈特堡
哈达
哈迪拉夏普尔
哈里路风暴
哈马比
哥伦布机员
哥利卡
哥德堡
哥本哈根
哥罗纳
哥连泰斯
喀拉拉爆破手
喜伯年
四二五体育队
国民会
国民体育俱乐部
国民普托斯
国际体育俱乐部
国际图尔库
国际米兰
国际迈阿密
图卢兹
图库姆斯2000
图库曼体育俱乐部
图积兰奴斯
图达杜利斯
圣乔凡尼
圣保罗
圣加伦
圣卢西亚
圣图尔登
圣地亚哥漫游者
圣基莱斯联
圣巴特里克
圣庄士东
圣彼得堡泽尼特
圣罗伦素
圣美伦
圣艾斯佩兰卡
圣若瑟
圣荷西体育俱乐部
圣荷西地震
圣达丽塔
圣达菲
圣达菲联
圣马田大学
地拉那
坎特伯雷联龙队
坦梅卡
埃利赞
埃努古流浪
埃尔切
埃弗顿
埃斯托里尔
埃施福拉
埃施青年
埃特尔布吕克
埃里温中央陆军
城南FC
域堡
基亚尼拿
基利森
基卡拉斯域卡
基多天主教大学
基夫拿维克
基尔史莫纳夏普尔
基尔马诺克
基希讷乌野牛
基拿云
基斯华达
基斯昆姆
基斯迪辛特
基福维利
基维辛迪
基萨斯联
基辅迪纳摩
基锡沙尔
塔利亚
塔奇拉
塔拉雅
塔斯干火车头
塔林军团
塔林卡勒夫
塔泰兰
塔达蒙
塞伊奈约基
塞列斯尼格罗斯
塞尔塔
塞帕
塞维利亚
塞维特
墨尔本城
墨尔本胜利
夏维科韦斯郡
多哈艾阿拉比
多哈艾阿里
多特蒙德
大师7
大格兰特
大连人
大邱FC
大都会FC
大阪樱花
大阪飞脚
天主教大学
天津津门虎
天狼星
天猫
奇姆基
奈夫特索罗曼
奈斯
奥伊本
奥伦斯
奥克兰城
奥兰多城
奥地利克拉根福
奥地利维也纳
奥地利路斯登洛
奥尔堡
奥尔梅多
奥尔迪诺
奥希金斯
奥德格伦兰
奥摩尼亚
奥斯坦德
奥斯泰华
奥斯积克
奥林匹亚科斯
奥林匹克麦迪亚
奥林比亚
奥林比亚会
奥格斯堡
奥洛慕克
奥特海维利
奥胡斯
奥萨苏纳
奥达巴斯
奥达斯
委内瑞拉体育俱乐部
威拉
威斯特曼
威灵顿
威灵顿凤凰预备组
孟买城
学生队
安图法加斯达
安塔利亚
安察利克
安德莱赫特
安曼
安波里
安特卫普
安罗科萨斯
安耶巴
安联大学
安萨尔
安迪江
宋兰义安
实皆联
宾尼沙坚
宾尼耶斯
宾约哥
富勒姆
富拿特
富明尼斯
小保加
小白水体育团
小象
小阿根廷人
尤尔马拉斯巴达克斯
尤文图斯
尤比沙漠之星
尼兹华
尼坦亚马卡尔皮
尼日尔龙卷风
尼科西亚
尼科西亚奥林匹亚科斯
尼菲治巴库
山东泰山
山度士
岘港
岛民
川崎前锋
巴伦西亚会
巴列卡诺
巴利亚多利德
巴利米纳联
巴力图
巴卡托普拿
巴厘联
巴吞联
巴堤
巴塞尔
巴塞罗那
巴尔辛
巴尔采斯
巴希亚
巴扬卡拉
巴拉城
巴拉干天奴
巴拉杜
巴拉纳体育俱乐部
巴斯顺达拉国王
巴杜米迪纳摩
巴格达空军
巴禾
巴萨克赛尔
巴蜀基利
巴赫莱
巴迪
巴黎圣日耳曼
布伦特福德
布列斯特迪纳摩
布加勒斯特星队
布加勒斯特迅速
布卡拉曼加
布哈拉
布尤坎达基亚
布度洛斯
布拉加
布拉格斯巴达
布拉格斯拉维亚
布拉沃斯
布洛顿
布莱顿
布达亚
布达佩斯华沙斯
布达佩斯汉维特
布里斯班狮吼
布阿拉里季堡
布鲁日
布鲁日舒高
希伯
希伯尼恩斯
希拉尔
帕丘卡
帕克斯
帕尔杜比斯
帕度华
帕斯度
帕斯祖洛比
帕特奥达斯
帕福斯
帕纳辛奈科斯
帕雷拉
平壤体育团
平定
平阳
年轻人
幸运薛达
幼狮队
广宁煤炭
广岛三箭
广州
广州城
库克斯
库安多古班哥
库普斯
库雷萨雷
庞特普里斯
康纳斯码头
廷布市
弗林特镇联
弗洛拉
弗赖堡
弗雷姆
强者
当姆萨尼
当尼斯克矿工
当马兰奴
彭亨
彭尼杜列高斯
彭尼维兹
彭拿洛沙
彭拿路
彭美拉斯
彭迪夫学院
得分王
德利城
德布雷辛尼
德里戴拿模
德锡
恒势
恩彼
恩维加多
恰帕斯美洲豹
惠灵顿凤凰
慕尼斯帕尔
戈亚尼恩斯
戈里卡
成都蓉城
托拉卡
托特纳姆热刺
拉古亚班巴
拉多米亚克
拉奇
拉巴特
拉布历基
拉德
拉德尼基
拉恩
拉查体育俱乐部
拉查布里
拉特南
拉瓜尔拉
拉科奥里塔
拉科尼联
拉米亚
拉赫蒂
拉鲁斯
拉齐奥
拖雷斯
拜仁慕尼黑
拜利斯
拜基卡拉
拿加沙
拿夫巴贺
拿夫特
拿拉FC
拿拉体育俱乐部
拿比达克
拿沙连拿
拿舒维尔
拿菲米辛
拿萨夫
挪亚
捷尔任斯克兵工厂
捷斯托佐华
捷迪斯沃
掸联
摩拿
摩里伦斯
收租者竞技
敦达克
文茨皮尔斯
斯佩齐亚
斯卡利察
斯卡拉
斯卢茨克
斯古比
斯图加特
斯基克达
斯威夫特
斯平加尔苍鹰
斯托姆加斯特
斯拉维亚莫兹里
斯洛云
斯洛华高
斯洛波达
斯特拉斯堡
斯特里达
斯特鲁加
斯科普里
新人SC
新加坡新潟天鹅
新圣徒
新英伦革命
新青年
施亚拉
施伦斯
施利高流浪
施历斯
施基斯亚
施安尼
施恩施雅奴
施拉
施拉云
施拉斯克
施捷
施普斯
施比尼克
施洛奇伯拉治
施特拉森
施连
施迪夫
日利纳
时刻准备着
昂热
昆卡
明尼苏达联
明尼路
明斯克
明斯克迪纳摩
春武里
晋峰
普夫迪夫火车头
普斯卡斯学院
普罗斯克
普罗格雷素
智利大学
曼城
曼塔
曼彻斯特62
曼联
曼谷联
曼迪奥拉
曼霍本拉拉希
月尾岛体育团
朗斯
本菲卡
朴比达
朴达丹
朴迪莫伦斯
杜保尔
杜克拉
杜兰
杜利马
杜希达联
杜斯拿城
杰志
极光队
林比
林肯红魔鬼
林茨
果阿
柏克塔哥
柏利斯天奴
柏拉坦斯
柏斯波利斯
柏林联
柏林赫塔
柏简
柏雷素尔
柔佛DT
查些路
查内尔
查华尔
查比高恩斯
查洛摩亚
查维斯
标准列日
标准流浪
根克
根茨
格伦杜兰
格兹拉联
格拉茨
格罗宁根
桑普多利亚
梅塔
梅州客家
梅拿
梅拿达
梅格
梅索科菲德
梅赫伦
梅里比拉
梅里达学生队
棕榈花竞技
森利德
森彼连
槟城
横滨水手
欧卡斯
欧塞尔
欧登塞
武汉三镇
武汉长江
武里南联
比亚斯华夏普尔
比利亚雷亚尔
比卓拿
比历斯
比尔森胜利
比尼拉纳
比拿斯卡
比斯克拉
比斯特
比杜路尔
比林
比罗
比达比历
毕尔巴鄂
水原FC
水原三星蓝翼
水晶体育
水晶宫
汉卡约
汉达瓦底联
江原FC
沃尔夫斯堡
沃尔夫斯贝格
沙兰迪兵工厂
沙勒格斯基
沙哈霍德罗
沙士菲
沙奥利姆
沙尔
沙尔克04
沙巴
沙巴尔
沙巴巴库
沙巴柏沙希
沙巴罕
沙巴阿罗登
沙布达卢
沙恩
沙拉姆
沙斯辛
沙欣布希尔
沙比艾阿里
沙汉姆
沙没巴干城
沙洛克流浪
沙米恩图
沙迦
沙马基
沧州雄狮
河内FC
河北FC
河南嵩山龙门
河床
河流联
法兰克福
法尔西亚诺
法马利卡奥
法高尔
波兹南莱克
波利斯拉夫
波图加沙
波坦奴
波士顿河
波尔图
波希米亚人
波希美恩斯
波特兰伐木者
波素斯捷
波鸿
泰哈蒙
泰哥维斯特
泰拉克托
泰拉维
泰港
泰科奥里
泰纳瓦斯巴达
泰路警察
泽巴格流浪
泽维卡平联
洛杉矶银河
洛比托
洛比星队
洛里昂
洪卡
洪都拉斯普基素
派德
流浪者
济州联
浙江
浦和红钻
浦那城
浦项制铁
浩罕1912
海于格松
海伦芬
海军海鹰
海法马卡尔皮
海豚SC
海防
淡滨尼流浪
深圳
深水埗
清化
清奈城
清奈泰坦
清恩联
清水心跳
清莱联
温特图尔
港会
游击队
游击队地拉拿
湘南美海
澳门士砵亭
澳门宾菲加
澳门警察
火炬体育团
火车头体育队
灰色队
燕子体育团
特伦辛
特拉布宗
特拉维夫夏普尔
特拉维夫马卡尔皮
特斯连
特林素
特温特
特莱姆森
特里森
特里森贝格
特里波利斯
特鲁瓦
独立队
狮城水手
玛丽港
玛拉工艺大学
玛格拉
环球马卡蒂
玻利瓦尔
珀斯光辉
班查鲁卡玻拉斯
班菲特
理工大学竞技
理文
瓜亚基尔城
瓜兰尼
瓜比拉
瓜达拉哈拉体育俱乐部
瓦伦西亚
瓦勒伦加
瓦普鲁斯
瓦杜茨
瓦迪戴加
甘堡尔
甘美奥
电气工业
登嘉楼
登地联
白俄罗斯国立大学
百万富翁
的黎波里
皇家伊斯柏纳
皇家军力
皇家卡施米尔
皇家圣克鲁斯
皇家帕里
皇家普托斯
皇家盐湖城
皇家社会
皇家贝蒂斯
皇家马德里
皮亚斯特
皮埃塔热刺
直布罗陀狮子
石油联盟
磐田喜悦
祖云尼斯杜加拿
祖奴摩勒斯
祖尔特瓦雷根
神户胜利船
福冈黄蜂
福托华
禾伦达利
禾宁丹
禾斯克拉
禾斯杜华斯
禾路斯
科伦坡FC
科利安拿
科威特SC
科尔多瓦美洲虎
科尼亚
科布雷素
科斯克米提
科泰尼沙
科洛尼亚广场
科特赖克
科罗拉多急流
科莫斯
科路巴拉
科隆
秘鲁体育大学
积基鲁尼亚
积布尼克
竞技研讨会
竞赛会
竞赛联
第比利斯火车头
第比利斯迪纳摩
第聂伯罗第一
简度拿奥
米兰
米勒瓦旁遮普
米奈
米奥云尼
米尔沙米
米拿罗斯
米赞比
米达利兹
米达利兹1925
精英队
素可泰
索利戈尔斯克矿工
索契
索尔亚
索柏阿汉
索莫哈
索迪约拿
索非亚中央陆军
索非亚利夫斯基
索非亚斯拉维亚
索非亚施谭夫尼
索非亚火车头
红星
约纳瓦
纳夫艾华萨特
纳尔瓦特兰斯
纳尼恩
纳沙
纳沙拉瓦联
纽卡斯尔联
纽卡素喷气机
纽城
纽柏莱斯
纽约城
纽约红牛
纽维尔旧生
纽里城
绍乌拉
维也纳迅速
维京
维京加高泰
维京古
维图斯
维基旅行者
维安
维尔茨
维拉斯尼亚
维拿迪马爱华顿
维捷布斯克
维泽夫
维罗纳
维薛拿
维迪斯
绿色街道
罗勇
罗斯托夫
罗斯波特维多利亚
罗斯郡
罗森博格
罗沙里奥中央
罗达
罗马
美因茨
美洲太阳
美达罗
老挝丰田
老挝警察
耶路撒冷比达
联乐
股权保险队
肯萨斯城体育俱乐部
胜利联队
胡志明市
胡特恩
自由议会
舒列夫
舒尔本
舒肯迪捷
航源FC
航空竞技
般奴
般奴麦柏斯
艾乌鲁巴
艾伯哈
艾伯里斯特夫
艾修达
艾加拉法
艾华卡拉
艾华夫伯
艾华斯尔
艾华达
艾华达SC
艾卡克
艾卡哈艾阿利
艾卡夏巴
艾卡迪斯亚
艾卡马特
艾哈斯姆
艾哥尔
艾喜拉
艾基森
艾塔亚文
艾塔拉巴
艾塞利亚
艾夫斯堡
艾安定艾哈比
艾尔索达
艾巴卡
艾希迪
艾干纳
艾恩米利拉
艾拉华特
艾拉华特阿美尼亚
艾拉斯克特
艾拿查夫
艾拿积马
艾提拉尔
艾文拿
艾斯加的斯体育俱乐部
艾斯加的斯国际
艾斯卡尔
艾斯宾路拿
艾斯迪格拿
艾杜哈尼
艾杜美图斯
艾杰拉
艾查捷拉
艾查捷拉安曼
艾沙克
艾沙哈尼亚
艾沙希
艾沙比
艾沙比雅玛迪
艾法特
艾祖拉
艾穆哈拉克
艾索莱
艾纳斯
艾维达
艾美历克
艾萨威尔
艾萨德
艾费哈
艾贺查拉
艾贾里勒
艾赞洛布
艾赫多德
艾辛尼
艾达哈耶
艾达喀尔迪萨利
艾达治
艾连姆沙
艾迪云尼亚
艾迪哈法
艾里斯利马素
艾锡卜
艾阿恩
艾阿达拿
艾阿里
艾阿里文拉马
艾阿里萨那
艾雷恩
艾马纳特巴格达
艾高斯图
芝加哥火焰
芬哈斯
芽笼国际
苏亚巴亚
苏利亚
苏博迪卡
苏古汉
苏度瓦
苏怀克
苏杜利卡
苏积斯卡
苏鲁切恩圣乔治
苏黎世
若基诺鱼雷
英胡利兹
草蜢
莫塔瓜
莫尔
莫斯科中央陆军
莫斯科斯巴达克
莫斯科火车头
莫斯科迪纳摩
莫斯科鱼雷
莫斯达
莫纳加斯
莱切
莱奥塔
莱斯特城
莱比锡RB
菲奥兰提诺
菲律宾U-23
菲律宾空军
萨克贺
萨勒尼塔纳
萨古拉利
萨哈布
萨基利兹
萨姆加耶特
萨尔米亚
萨尔茨堡红牛
萨巴柏保查
萨拉热窝
萨拉米斯
萨普
萨普斯堡
萨格勒布火车头
萨格勒布迪纳摩
萨比利斯
萨法
萨瓦赫尔
萨索洛
萨那艾华达
萨马华
萨马拉
萨马雷克
葛度尔古斯
葡人之家
葡萄牙体育
蒂图斯佩唐日
蒂拉斯波尔
蒂拉斯波尔迪纳摩
蒂瓦特阿森纳
蒙代康日
蒙地卡罗
蒙多夫
蒙彼利埃
蒙扎
蒙斯卡普
蒙特维多利物浦
蒙特维多国民队
蒙特维多城扭矩
蒙特维多河床
蒙特维多流浪
蒙通联
蓝十字体育俱乐部
蓝星
蔚山现代
蔡伦戈
薛谢斯历卡
西悉尼流浪
西汉姆联
西班牙人
西贡
西部联
西雅图海湾者
诺丁汉森林
诺拉万克
诺维柏沙
诺费尔
诺高平
诺高莫
谢夫
谢赫拉塞尔
豪克斯湾
豪尔费坎
贝加尼卡
贝勒阿巴斯
贝尔格莱德红星
贝西克塔斯
贝雷茨
贝鲁札达
质量经销商
费伦茨瓦罗斯
费内巴切
费利拿
费坦奴
费城联
费夏华
费耶诺德
费萨里
贺拉戴克
贾柏莱
赫塔费
赫尔辛堡
赫斯
赫根
赫格尔曼立陶宛
赫罗纳
超级联体育会
越电信
路宾
路昆奴
路梳比洛
路达普列夫利亚
轻工业省体育团
辛斯华尔
辛特儒尼奥尔
辛达喀尔拉
辛连斯基
辛迪夫佐特
达保亚
达叻
达奴比奥
达安蒙迪
达尔贝达
达马克
迈万德冠军
进步者
连菲特
迪克维斯
迪加科斯
迪宾尼
迪尼伯
迪弗当日
迪德朗日
迪拿哥里
迪赫弗
邓根伦
那不勒斯
那空拉查斯马
邦加
邹北记
都柏林大学
都灵
里加FC
里加足校
里奥艾维
里昂
里波洛
金字塔
铭传大学
锡尔克堡
锡永
锡瓦斯体育
长春亚泰
门兴格拉德巴赫
防卫者
阳光星
阿伯丁
阿克托比
阿克瓦联
阿克苏
阿勒颇伊蒂哈德
阿古拿斯
阿古雷利
阿喀巴
阿姆波浪
阿尔亚莫克
阿尔克马尔
阿尔内泽默
阿尔列法
阿尔华达
阿尔哈拉
阿尔富吉拉
阿尔拿达
阿尔查殊
阿尔梅里亚
阿尔禾里亚
阿尔纳夫
阿尔纳斯
阿尔纳沙
阿尔艾拉比
阿尔萨特
阿尔费萨里
阿尔阿赫德
阿巴辛波浪
阿度斯维
阿德莱德联
阿拉伯建筑
阿拉姆巴格体育会
阿拉尼亚
阿拉德
阿拉瓜
阿斯塔纳
阿斯顿维拉
阿斯麦隼鸟
阿曼FC
阿查斯
阿森纳
阿比亚勇士
阿比尔
阿波罗利马素
阿洛卡
阿特兰大联
阿特雷
阿积曼
阿简尼斯
阿美利加明尼路
阿耶古祖
阿舒多
阿贾克斯
阿达纳
阿里斯
阿里辛特
阿雅克肖
阿雷马
陶格夫匹尔斯
隆德比
雅拉古恩奴斯
雪兰莪
雷克雅未克
雷尼基利斯
雷恩
雷格尔
雷诺华
霍尔森斯
霍斯特尔特
霍芬海姆
霹雳
青年人
青年体育俱乐部
青锋
靴曼斯达特
韦斯图尔
韦斯特曼纳耶
韦斯达路
韦达卡萨布兰卡
韦达基利联
飓风队
香港U23
马克塔拉尔
马六甲联
马其顿尼亚
马兹亚
马勒杜斯
马卡拉
马圭
马奇尼沙治
马安
马尔多纳多
马尔默
马德里竞技
马拉奇
马拉顿
马斯喀特
马斯特
马斯纳亚
马格里布
马沙尔
马沙斯洛克
马瑟韦尔
马略卡
马萨雷
马赛
马赞德兰
马都拉联
马里博尔
马里士他卡沙
马里迪莫
高利宁
高劳
高原联
高古林
高尔高赫
高柏
高洛斯
高美尔
高路高路
高隆
鲁卡尼
鲁斯塔克
鲤明水体育团
鸟栖砂岩
鸭绿江体育队
鸿岭河静
鹿岛鹿角
鹿特丹斯巴达
麦克阿瑟
麦德林独立
麦纳玛
黄英嘉莱
黎明体育团""".split("\n")
