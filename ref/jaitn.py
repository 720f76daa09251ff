"""Japanese ITN: units, currencies and listed words, reviewed by hand."""
# units with one abbreviation
UNITS_EN = {
    "華氏": "f",
    "摂氏": "c",
    "キロメートル": "km",
    "千キロメートル": "km",
    "メートル": "m",
    "センチ": "cm",
    "インチ": "インチ",
    "リットル": "L",
    "ジュール": "J",
    "ワット": "W",
    "アンペア": "A",
    "アンペア毎メートル": "A/m",
    "ビット": "bit",
    "バイト": "Byte",
    "度": "℃",
    "立方センチメートル": "cm³",
    "ドット": "dpi",
    "ケルビン": "K",
    "センチメートル": "cm",
    "ミリメートル": "mm",
    "ヘクタール": "ha",
    "マイル": "mi",
    "平方メートル": "m²",
    "平方キロメートル": "km²",
    "足": "ft",
    "パーセント": "%",
    "ヘルツ": "hz",
    "キロワット": "kw",
    "馬力": "hp",
    "ミリグラム": "mg",
    "キログラム": "kg",
    "キロ": "kg",
    "ギガヘルツ": "ghz",
    "キロヘルツ": "khz",
    "メガヘルツ": "mhz",
    "メガクーロン": "mc",
    "ナノメートル": "nm",
    "毎分回転数": "rpm",
    "ミリアンペア": "mA",
    "キロワット時": "kwh",
    "立方メートル": "m³",
    "時速マイル": "mph",
    "テラワット": "tw",
    "ミリボルト": "mv",
    "メガワット": "mw",
    "マイクロメータ": "μm",
    "テラバイト": "TB",
    "グラム": "g",
    "ダルトン": "da",
    "雰囲気": "atm",
    "デシベル": "dB",
    "ペタ秒": "ps",
    "オンス": "oz",
    "ヘクトリットル": "hl",
    "マイクログラム": "μg",
    "ペタグラム": "pg",
    "キロビット": "kb",
    "電子ボルト": "ev",
    "キロビット/秒": "kbps",
    "毎秒メガビット": "mbps",
    "結石": "st",
    "キロリットル": "kl",
    "テラジュール": "tj",
    "キロボルト": "kv",
    "メガボルト": "mv",
    "キロニュートン": "kn",
    "メガメーター": "mm",
    "天文単位": "au",
    "ヤード": "yd",
    "ラジアン": "rad",
    "ルーメン": "lm",
    "ヘクト秒": "hs",
    "モル": "mol",
    "ギガパスカル": "gpa",
    "ミリリットル": "ml",
    "ギガワット": "gw",
    "メガアンペア": "ma",
    "結び目": "kt",
    "キログラム力": "kgf",
    "ナノグラム": "ng",
    "ナノ秒": "ns",
    "メガシーメンス": "ms",
    "バー": "bar",
    "ギガリットル": "gl",
    "マイクロ秒": "μs",
    "デシアンペア": "da",
    "パスカル": "pa",
    "デシ秒": "ds",
    "ミリ秒": "ms",
    "デシメートル": "dm",
    "立方デシメートル": "dm³",
    "原子質量単位": "amu",
    "メガビット": "mb",
    "メガファラッド": "mf",
    "ベクレル": "bq",
    "ペタビット": "pb",
    "平方ミリメートル": "mm²",
    "平方センチメートル": "cm²",
    "平方マイル": "sq mi",
    "平方フィート": "sq ft",
    "キロパスカル": "kpa",
    "カンデラ": "cd",
    "テラリットル": "tl",
    "メガ秒": "ms",
    "メガパスカル": "mpa",
    "ペタメーター": "pm",
    "ペタバイト": "pb",
    "ギガワットアワー": "gwh",
    "キロカロリー": "kcal",
    "グレー": "gy",
    "シーベルト": "sv",
    "ハンドレッド": "cwt",
}
# more than one abbreviation is listed: ボルト V/v, オーム Ω/ω, メガバイト MB/mb, キロバイト KB/kb, ギガバイト GB/gb
AMBIGUOUS = ['ボルト', 'オーム', 'メガバイト', 'キロバイト', 'ギガバイト']
UNITS_JA = ['つ', '枚', '部', '台', '杯', '匹', '本', '階', '個', '箇', '円', '个', 'ヶ', '面', '名', '人', '歳', '才', '冊', '話', '秒', '分', '月', '泊', '時', '時間', '日', 'ヶ月', '箇月', '年', '日', '週', '倍', '番', '度', '畳', '回', '年前', '年後', '年以内', '平方', '平方メートル', '立方', '立方メートル', 'キロ', 'キロメトル', '世紀', '年代']
CURRENCY = {'ドル': '$', 'バーツ': '฿', 'ユーロ': '€', 'インドルピー': '₹', 'ルーブル': '₽', 'スイスフラン': 'CHF', 'レアル': 'R$'}
WHITELIST = ['十三湖', '一月三舟', '一日之長', '十八番', '百人一首', '二百十日', '三度笠', '千円札', '二十面相', '七つの海', '四国八十八箇所', '五箇山', '千本鳥居', '五月雨', '六本木ヒルズ', '七つの大罪', '千本格子', '二枚目俳優', '六本木アートナイト', '七人の侍', '五月祭', '七人の姉妹', '十八番目の男']
