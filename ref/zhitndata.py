"""Tables of the Chinese inverse normalizer, as of the pinned commit: the oracle's own copy."""

WHITELIST = dict(x.split("|") for x in """三七二十一|三七二十一
一共|一共
一个|一个
一下|一下
一些|一些
一起|一起
一会|一会
一路|一路
二维码|二维码
慢一点|慢一点
一般|一般
统一|统一
星期一|星期一
星期二|星期二
星期三|星期三
星期四|星期四
星期五|星期五
星期六|星期六
一年一度|一年一度
一点一滴|一点一滴
三心二意|三心二意
阳春三月|阳春三月
七嘴八舌|七嘴八舌
四分五裂|四分五裂
七荤八素|七荤八素
三纲五常|三纲五常
三姑六婆|三姑六婆
四大皆空|四大皆空
五体投地|五体投地
六神无主|六神无主
七窍生烟|七窍生烟
七擒七纵|七擒七纵
八仙过海|八仙过海
十恶不赦|十恶不赦
一言九鼎|一言九鼎
一应俱全|一应俱全
一窍不通|一窍不通
一盘散沙|一盘散沙
十全十美|十全十美
一五一十|一五一十
让你三分|让你三分
乱七八糟|乱七八糟
一日三餐|一日三餐
十分高兴|十分高兴
十万八千里|十万八千里
四川|四川
三明|三明
九寨沟|九寨沟
七里河|七里河
九江|九江
六安|六安
十堰|十堰
八公山|八公山
七台河|七台河
五常|五常
四平|四平
四子王旗|四子王旗
三亚|三亚
二连浩特|二连浩特
零陵|零陵
五台山|五台山
六盘水|六盘水
八宿|八宿
十二五|十二五
十三五|十三五
十四五|十四五
几十万|几十万
几百万|几百万
几千万|几千万
十几万|十几万
二十几万|二十几万
三十几万|三十几万
四十几万|四十几万
五十几万|五十几万
六十几万|六十几万
七十几万|七十几万
八十几万|八十几万
九十几万|九十几万
七乘二十四小时|7x24小时
七乘二十四个小时|7x24个小时
四S店|4S店
四s店|4s店""".split("\n"))
CURRENCY_SYMBOL = dict(x.split("|") for x in """加纳塞地|¢
玻利维亚玻利维亚诺|$b
乌拉圭比索|$U
美元|$
英镑|£
元|¥
泰铢|฿
柬埔寨瑞尔|៛
哥斯达黎加科隆|₡
尼日利亚奈拉|₦
朝鲜园|₩
以色列谢克尔|₪
越南东|₫
欧元|€
老挝基普|₭
蒙古图格里克|₮
古巴比索|₱
菲律宾比索|₱
乌克兰格里夫纳|₴
印度卢比|₹
土耳其里拉|₺
卢布|₽
白俄罗斯卢布|Br
委内瑞拉玻利瓦尔|Bs
伯利兹元|BZ$
巴拿马巴尔博亚|B/.
尼加拉瓜科尔多瓦|C$
瑞士法郎|CHF
匈牙利福林|Ft
阿鲁巴盾|ƒ
巴拉圭瓜拉尼|Gs
牙买加元|J$
捷克克朗|Kč
波斯尼亚和黑塞哥维那可兑换马克|KM
克罗地亚库纳|kn
丹麦克朗|kr
罗马尼亚列伊|lei
阿尔巴尼亚列克|Lek
洪都拉斯伦皮拉|L
莫桑比克梅蒂卡尔|MT
博茨瓦纳普拉|P
危地马拉格查尔|Q
巴西雷亚尔|R$
多米尼加共和国比索|RD$
马来西亚令吉|RM
印尼盾|Rp
巴基斯坦卢比|₨
毛里求斯卢比|₨
南非兰特|R
秘鲁索尔|S/.
索马里先令|S
特立尼达和多巴哥元|TT$
津巴布韦元|Z$
波兰兹罗提|zł
马其顿代纳尔|ден
塞尔维亚第纳尔|Дин.
乌兹别克斯坦索姆|лв
保加利亚列弗|лв
吉尔吉斯斯坦索姆|лв
哈萨克斯坦腾格|лв""".split("\n"))
UNITS_EN = dict(x.split("|") for x in """原子质量|amu
巴|bar
平方厘米|cm²
立方厘米|cm³
厘米|cm
美担|cwt
摄氏度|°C
分贝|db
立方分米|dm³
分米|dm
英尺|ft
华氏度|°F
吉字节|gb
吉赫兹|ghz
吉帕斯卡|gpa
吉瓦时|gwh
吉瓦|gw
戈瑞|gy
小时|h
公顷|ha
赫兹|hz
千比特每秒|kbps
千比特一秒|kbps
千卡|kcal
千克力|kgf
千克|kg
公斤|kg
千赫兹|khz
平方千米|km²
公里|km
公里每小时|km/h
公里一小时|km/h
千米|km
千米每小时|km/h
千米一小时|km/h
千帕|kpa
千瓦时|kwh
千瓦|kw
磅|lbs
平方米|m²
立方米|m³
兆比特每秒|mbps
兆比特一秒|mbps
克|g
毫克|mg
兆赫兹|mhz
平方英里|mi²
分钟|min
英里|mi
毫升|ml
平方毫米|mm²
毫米|mm
摩尔|mol
兆帕|mpa
英里每小时|mph
英里一小时|mph
毫秒|ms
毫伏|mv
毫瓦|mw
千伏|kv
米|m
纳克|ng
纳米|nm
纳秒|ns
盎司|oz
帕斯卡|pa
皮克|pg
皮秒|ps
弧度|rad
转每分|rpm
平方英尺|sq ft
系沃特|sv
秒|s
太字节|tb
万亿焦耳|tj
台两|tl
伏特|v
码|yd
微克|μg
微米|μm
微秒|μs
欧米茄|ω""".split("\n"))
# several codes: any of them
CURRENCY_CODE = {'阿联酋迪拉姆': 'AED', '阿富汗 阿富汗尼': 'AFN', '荷属安的列斯盾': 'ANG', '阿根廷比索': 'ARS', '阿塞拜疆马纳特': 'AZN', '巴巴多斯元': 'BBD', '百慕大元': 'BMD', '文莱达鲁萨兰国元': 'BND', '巴哈马元': 'BSD', '智利比索': 'CLP', '人民币': 'CNY', '哥伦比亚比索': 'COP', '埃及镑': 'EGP', '欧元成员国': 'EUR', '斐济元': 'FJD', '福克兰群岛（马尔维纳斯）镑': 'FKP', '根西岛镑': 'GGP', '直布罗陀镑': 'GIP', '圭亚那元': 'GYD', '马恩岛英镑': 'IMP', '伊朗里亚尔': 'IRR', '冰岛克朗': 'ISK', '泽西镑': 'JEP', '开曼群岛元': 'KYD', '黎巴嫩镑': 'LBP', '斯里兰卡卢比': 'LKR', '利比里亚元': 'LRD', '摩洛哥迪拉姆': 'MAD', '墨西哥比索': 'MXN', '纳米比亚元': 'NAD', '挪威克朗': 'NOK', '尼泊尔卢比': 'NPR', '新西兰元': 'NZD', '阿曼里亚尔': 'OMR', '卡塔尔里亚尔': 'QAR', '俄罗斯卢布': 'RUB', '沙特阿拉伯里亚尔': 'SAR', '所罗门群岛元': 'SBD', '塞舌尔卢比': 'SCR', '瑞典克朗': 'SEK', '新加坡元': 'SGD', '圣赫勒拿镑': 'SHP', '苏里南元': 'SRD', '萨尔瓦多科隆': 'SVC', '叙利亚镑': 'SYP', '图瓦卢元': 'TVD', '新台币': 'TWD', '东加勒比元': 'XCD', '也门里亚尔': 'YER'}
UNITS_ZH = """年来 年前 年后 年内 年之前 年之后 人 篇 帧 把 封 艘 套 段 匹 张 座 回 场 尾 条 个 首 阙 阵 网 炮 顶 丘 棵 只 支 袭 辆 挑 担 颗 壳 窠 曲 墙 群 腔 砣 客 贯 扎 捆 刀 令 手 罗 坡 山 岭 江 溪 钟 队 单 双 对 口 头 脚 板 跳 枝 件 贴 针 线 管 名 位 身 堂 课 本 页 家 户 层 丝 毫 厘 分 钱 斤 铢 石 钧 锱 忽 克 寸 尺 丈 里 寻 常 铺 程 米 撮 勺 合 升 斗 盘 碗 碟 叠 桶 笼 盆 盒 杯 斛 锅 簋 篮 罐 瓶 壶 卮 盏 箩 箱 煲 啖 袋 钵 季 年 月 日 刻 时 周 天 秒 旬 纪 岁 世 更 夜 春 夏 秋 冬 代 伏 辈 丸 泡 粒 幢 堆 根 道 面 片 块 架 角 毛 字 元 两 两米饭 两酒 吨 顿 牛 次 号""".split()
UNITS_EN["度"] = "°"
