"""add_tech.py ID technique notes : append an entry to manifest_data.py."""
import sys
import pprint
import textwrap
path = '/verif/tools/manifest_data.py'
pid, tech, notes = sys.argv[1:4]


def lit(text, indent):
    parts = textwrap.wrap(text, 60)
    return ('\n' + ' ' * indent).join(
        repr(p + (' ' if i < len(parts) - 1 else ''))
        for i, p in enumerate(parts))


src = open(path).read().rstrip()
assert src.endswith('}') and "'%s'" % pid not in src
src = src[:-1] + "    '%s': (MON + %s,\n            %s),\n}\n" % (
    pid, lit(tech, 12), lit(notes, 12))
open(path, 'w').write(src)
