"""prints section 5 of DESIGN.md from seeded/*/meta.json (run by hand; no check uses it)"""
import glob, json, os, textwrap
by = {}
for f in sorted(glob.glob("seeded/*/meta.json")):
    by.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
n = sum(map(len, by.values()))
print(f"""## 5. Planted bugs, and which checks catch them

{n} changes in `seeded/`, each written from a property's text and the code. Every one builds, passes the
13 tests, and has a demonstration that fails with it only; every one is caught by the quick tier of the check of
the property it breaks (seed 1), as last run on this tree. Missed at first, and what was strengthened:

| missed | strengthened |
|---|---|
| bugs beyond a buffer, a chunk or 64 Ki items | every check got `large` cases (1–12 MiB, thousands of members); C06 large files |
| state kept between elements or calls (dirty destination, first use in another thread, second archive in a process) | C04, C25 read into used storage; C32 late first use; C18 noise between calls |
| throwing and formatted streams, foreign headers | C04 streams with exceptions(), C18 formatted streams |
| `setlocale` and `std::locale::global` for a moment; collation order | C16 counts them, C17 collating locale and several members, C33 |
| reading the environment | C18 replaces `getenv` |
| one member's work depending on another | C28 reads each small member in turn |
| classes which no longer compile | C25 reports a refused interface |
| replaced files backed up; `cin` cleared | C33 older files, odd states of `cin`, `cerr`, `clog` |
| CRC low bits, ZIP64 extras, MiB-exact entries | C09–C11, C20 |

Caught, by property:
""")
for p in sorted(by):
    print(textwrap.fill(f"* {p}: " + ", ".join(i[len(p) + 1:] if i.startswith(p.lower() + "-") else i for i in by[p]), 110, subsequent_indent="  ", break_on_hyphens=False))
