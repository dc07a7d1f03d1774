#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md from properties.jsonl, techniques.json, known_findings.json and seeded/."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rd = lambda f: open(os.path.join(root, f)).read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
tech = json.loads(rd("tools/techniques.json"))
found = json.loads(rd("known_findings.json"))
specs = {
 "P01": "Bundle, Lookup; MC_Lookup, Trace_Session", "P02": "Bundle, Lookup; MC_Lookup, Trace_Session", "P03": "Bundle; MC_Bundle, Trace_Session",
 "P04": "Lookup; MC_Lookup, Trace_Session", "P05": "Threads, Sharing; MC_Threads, MC_Sharing, Trace_Session, Trace_Print and those of the calls made together",
 "P06": "FileLoad; MC_FileLoad, Trace_FileLoad", "P07": "FileLoad; MC_FileLoad, Trace_FileLoad", "P08": "PoFile, PoHeader, PoString; MC_PoFile, Trace_PoFile",
 "P09": "PoString; MC_PoString, Trace_PoString", "P10": "PoFile; Trace_PoRound", "P11": "PoMerge; MC_PoMerge, Trace_PoMerge", "P12": "MoFile; MC_MoFile, Trace_MoFile",
 "P13": "GettextCatalog; MC_GettextEntries, Trace_GettextCatalog, Trace_JsonCatalog", "P14": "PluralForms; MC_PluralForms, Trace_PluralForms", "P15": "PluralTable, PluralForms; MC_PluralTable, Trace_PluralTable",
 "P16": "CldrOperands, Decimal; MC_CldrOperands, Trace_CldrOperands", "P17": "CldrRules, CldrOperands; MC_CldrRules, Trace_CldrRules", "P18": "CldrTable, CldrRules; MC_CldrTable, Trace_CldrTable",
 "P19": "GettextCatalog, PluralForms, CldrTable; MC_GettextRule, Trace_GettextCatalog", "P20": "JsonCatalog, CldrTable; MC_JsonCatalog, Trace_JsonCatalog", "P21": "JsonHistory; MC_JsonHistory, Trace_JsonHistory",
 "P22": "Lookup; MC_Lookup, Trace_Session", "P23": "Lookup; MC_Lookup, Trace_Session", "P24": "Lookup; MC_Lookup, Trace_Session", "P25": "Calendar, Elapsed; MC_Elapsed, Trace_Humanize",
 "P26": "Calendar, Elapsed, HumanText; MC_Relative, Trace_Humanize", "P27": "Calendar, DateFormat; MC_Dates, Trace_Humanize", "P28": "Nat10, Decimal, Numerals; MC_Numbers, Trace_Humanize",
 "P29": "HumanStory, HumanText; MC_HumanStory, Trace_HumanStory", "P30": "Parsers, ParserContract; MC_Parsers, Trace_Parsers",
 "P31": "Shipped, DateFormat, PluralForms; Trace_Packs", "P32": "Shipped, Elapsed, DateFormat, Numerals, PluralForms; Trace_Shipped",
}
out = ["## Properties\n\nThe bounds of the quick and thorough runs are the constants in `harness/*.go` (`props[\"Pxx\"]`); each run writes what it\ncovered to `evidence/Pxx.json`. Why tests cannot settle a property is said in `properties.jsonl`.\n"]
for p in props:
    t = tech.get(p["id"])
    out.append(f"### {p['id']} {p['title']}\n\nModules: {specs[p['id']]}.\n")
    if t: out.append(f"{t[0]}.\n\nLimits: {t[1]}\n")
    else: out.append("No check yet.\n")
out.append("## Genuine defects found\n\nRepaired, one commit each in /repo (listed as fixed in `known_findings.json`):\n")
for f in found:
    if f["status"] == "fixed": out.append(f"- {f['property']} ({f.get('commit','')[:7]}): {f['what']}")
out.append("\nNot repaired (KNOWN-FINDING; the deviation is described in the trace specification, so that any other violation is still reported):\n")
for f in found:
    if f["status"] == "known": out.append(f"- {f['property']} `{f['deviation']}`: {f['what']}")
out.append("\n## Planted bugs\n\n`tools/mkseed.sh` confirms and keeps a change, `tools/tryseed.sh` runs the check of its property against each.\n")
caught = {}
try: caught = json.loads(rd("tools/caught.json"))
except FileNotFoundError: pass
out.append("| change | property | needs | caught by its check |\n|---|---|---|---|")
sd = os.path.join(root, "seeded")
for s in sorted(os.listdir(sd)):
    m = json.loads(rd(f"seeded/{s}/meta.json"))
    out.append(f"| {s} | {m['property']} | {m['needs']} | {caught.get(s, '?')} |")
doc = rd("DESIGN.md").split("<!-- generated -->")[0]
open(os.path.join(root, "DESIGN.md"), "w").write(doc + "<!-- generated -->\n" + "\n".join(out) + "\n")
