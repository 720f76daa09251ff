"""Every pipeline has a normalization for every text."""
from vf.cnf import T
from vf.family import Char, Enum, Fam, Ref, run_check, replay  # noqa: F401

ANY = [(1, 0xD7FF), (0xE000, 0x10FFFF)]
LEFT = {
    "zh": ["我", "5", "一百", "3月", "a", " ", "\"", "\\", "￥5", "第"],
    "ja": ["私", "5", "百", "3月", "a", " ", "\"", "\\", "午後", "第"],
    "en": ["I ", "5 ", "fifty ", "May 3", "x-", "say \"", "$5 ", "a.b ", "(", "\\"],
}
RIGHT = {
    "zh": ["们", "5", "百", "日", "b", " ", "\"", "\\", "%", "元"],
    "ja": ["達", "5", "百", "日", "b", " ", "\"", "\\", "%", "円"],
    "en": [" ok", " 5", " five", "th", ", and", "\" ok", "%", ".com", ")", "\\"],
}
FRAG = {
    "zh": ["0", "1", "2", "10", "2024", "12.5", "-3", "1/2", "3:05", "110", "13800138000", "１", "零", "一", "两", "十", "百", "千", "万", "亿", "点", "年", "月", "日",
           "号", "分", "秒", "元", "￥", "$", "kg", "km/h", "平方米", "℃", "%", "百分之", "分之", "上午", "正负", "负", "加", "等于", "比", "到", "-", "~", ":", "/", ".",
           "+", "=", "<", "(", "\"", "\\", " ", "a", "B", "京A", "次", "个", "儿", "啊", "湖人", "，", "。", "八八", "每", "兆", "毛", "几", "〇", "電", "第", "T"],
    "ja": ["0", "1", "2", "10", "2024", "12.5", "-3", "1/2", "3:05", "12:30:15", "１", "零", "一", "十", "百", "千", "万", "億", "点", "年", "月", "日", "時", "分", "秒",
           "円", "￥", "$", "ドル", "kg", "km/h", "平方メートル", "℃", "%", "分の", "午前", "午後", "マイナス", "足す", "は", "対", "から", "-", "~", ":", "/", ".", "+", "=", "<",
           "(", "\"", "\\", " ", "a", "B", "個", "人", "あの", "、", "。", "三", "三十", "〇", "半", "・", "第", "T", "パーセント", "割", "番"],
    "en": ["0", "1", "2", "10", "1905", "12.5", "-3", "1/2", "3:05", "3rd", "five", "twenty", "hundred", "point", "first", "half", "May", "January ", " ", ", ", " of ",
           "$", "\u00a3", "dollars", "kg", "km/h", "%", "percent", "am", " p.m.", "AD", "'s", "-", "~", ":", "/", ".", "+", "=", "x", "(", "\"", "\\", "a", "B", "C3PO",
           "@", ".com", "www.", "123-456-7890", "1.2.3.4", "Mon", "No. ", "#", "*", "and", "million", "o'clock", "minus", "quarter", "\t", "\u4e00"],
}
FLIP = dict(remove_interjections=False, remove_erhua=False, traditional_to_simple=False, remove_puncts=True, full_to_half=False, tag_oov=True)

JFLIP = dict(remove_interjections=True, transliterate=True, remove_puncts=True, full_to_half=False, tag_oov=True)
IFLIP = dict(remove_interjections=False, enable_standalone_number=False, enable_0_to_9=True, enable_million=True)
JIFLIP = dict(full_to_half=True, enable_standalone_number=False, enable_0_to_9=True, enable_million=True)


def families(tier):
    big = tier == "thorough"
    out = []
    pipes = [("en_tn", {}, 6 if big else 4), ("en_itn", {}, 20 if big else 10), ("zh_tn", {}, 12 if big else 5), ("zh_tn", FLIP, 12 if big else 5),
             ("zh_itn", {}, 9 if big else 6), ("ja_tn", {}, 12 if big else 8), ("ja_itn", {}, 20 if big else 10),
             ("ja_tn", JFLIP, 8 if big else 4), ("zh_itn", IFLIP, 8 if big else 3), ("ja_itn", JIFLIP, 12 if big else 4)]
    if big:
        pipes += [("zh_itn", dict(enable_standalone_number=False), 8), ("zh_itn", dict(enable_0_to_9=True), 8),
                  ("zh_itn", dict(enable_million=True), 8)]
    for kind, opt, n in pipes:
        cheap = {"en_tn": 2, "zh_tn": 1, "ja_tn": 2}.get(kind, 3) + (1 if big else 0)
        lang = kind[:2]
        for k in range(1, n + 1):
            out.append((kind, opt, Fam("any %d characters" % k, [Char(ANY) for _ in range(k)], [Ref(i) for i in range(k)], None, costs=k <= cheap)))
        for k in (1, 2, 3) if big else (1, ) if kind == "en_tn" else (1, 2):
            slots = [Enum(LEFT[lang])] + [Char(ANY) for _ in range(k)] + [Enum(RIGHT[lang])]
            out.append((kind, opt, Fam("any %d characters in context" % k, slots, [Ref(i) for i in range(k + 2)], None, costs=False)))
        for k in (2, 3) if big else (2, ):
            frag = FRAG[lang] if big or kind != "ja_tn" else FRAG[lang][:21] + FRAG[lang][21::3]
            out.append((kind, opt, Fam("%d fragments" % k, [Enum(frag)] * k, [Ref(i) for i in range(k)], None, costs=True)))
    return out


def run(tier):
    fams = families(tier)
    fams.sort(key=lambda f: -len(f[2].slots))
    return run_check(
        fams, 600 if tier == "thorough" else 250,
        bounds="every text of up to 4 (English TN), 5 (Chinese TN), 6 (Chinese ITN), 8 (Japanese TN) or 10 (English and Japanese ITN) arbitrary "
        "Unicode characters other than NUL and surrogates, and every 1 or 2 arbitrary characters between 10 left and 10 right contexts, have some tagging with a "
        "verbalization; for 1 (zh TN), 2 (en, ja TN) or 3 (ITN) characters and for every two of some 70 fragments per language the cheapest tagging has one; thorough: "
        "up to 6, 12, 9, 12 and 20 characters, 3 in context, one more character and three fragments with costs, further option sets",
        functions=["tagger and verbalizer graphs of all six normalizers, composed through the token parser's blank handling (tn/*/normalizer.py, "
                   "itn/*/inverse_normalizer.py and every rule below them)", "Processor.normalize (counterexamples are replayed on it)"],
        assumptions=["a tag that the verbalizer accepts in the written field order is also accepted after TokenParser.reorder (fallback tokens have one "
                     "field; reordering itself is C02)"])
