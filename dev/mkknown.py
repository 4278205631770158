import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
 "cb47732": ("C03", "a plain value merged with an HTML() value for the same attribute was escaped as text, so quotes and line breaks reached the output raw"),
 "aed1bb0": ("C08", "HTMLDocument(html_tag, lang=...).render() added the attributes to the user's own <html> tag"),
 "db1310e": ("C09", "an object expanding to <html> or <body> was nested in a second <html>/<body> by HTMLDocument.render()"),
 "11830cd": ("C08", "tagify() shared a dependency's source/script/stylesheet/meta/head objects with the original, and left tagifiable content in head unexpanded"),
 "9047a32": ("C17", "prev_displayhook stayed on the tag after its with block: the tag could not be entered again, was unequal to a fresh one, and broke copying"),
 "cb16df9": ("C13", "only '</script>' in lower case was neutralised in serialised dependencies"),
 "7f7e6d7": ("C18", "HTMLTextDocument appended the recovered dependencies to the caller's deps list"),
 "4b4b6ae": ("C14", "TagList += stored its operand without flattening or type checks"),
 "a434d45": ("C14", "HTML() passed to extend/+ was split into characters, HTML + TagList produced text"),
 "52d7bca": ("C14", "is_tag_child(1) was False"),
 "0dd184b": ("C16", "has_class/remove_class on class values marked HTML() missed tokens or dropped the mark"),
 "a7e0dbc": ("C20", "an empty allow-list allowed every prop"),
 "8e3d5be": ("C20", "a style declaration whose value has a colon raised"),
 "e2f9936": ("C20", "JSXTag.tagify() altered the component, its children and expansions"),
 "f73f3b2": ("C20", "a TagList expansion among the children of a component raised or vanished"),
 "85777dd": ("C20", "quotes and backslashes in JSX prop and dict keys broke the generated script"),
 "b698098": ("C17", "a displayed value whose own == answers true (or raises) was taken for None, or its error escaped, instead of being rejected with TypeError"),
 "b5fbb34": ("C17", "a copy made of a tag inside its with block, never entered itself, could not be entered"),
 "9cbe6f6": ("C20", "a jsx() expression as style prop was parsed as CSS text"),
 "85a5a7a": ("C20", "a TagList prop (or a prop expanding to one) was written as quoted HTML with raw line breaks"),
 "714a1cf": ("C20", "converting a component around a tag whose style is HTML() raised TypeError"),
 "efc1407": ("C20", "infinite and NaN props were written as Python names"),
}
out = {"findings": json.load(open(os.path.join(ROOT, "dev", "findings.json"))), "fixed": []}
for h, s in [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()]:
    if not s.startswith("fix:"):
        continue
    p, w = PROPS[h]
    out["fixed"].append(f"fixed: property={p} {h} {w}")
json.dump(out, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
