import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tables
o = "// generated from specs/tables.py (specs/tables.py is the source; `python3 specs/mkvocab.py` rewrites this)\nuse tmi::{Command, Tag};\n"
o += "pub const COMMANDS: &[(&str, &str, Command<'static>)] = &[\n" + "".join(f'  ("{v}", "{w}", Command::{v}),\n' for v, r, w in tables.COMMANDS) + "];\n"
o += "pub const TAGS: &[(&str, &str, Tag<'static>)] = &[\n" + "".join(f'  ("{v}", "{w}", Tag::{v}),\n' for v, w in tables.TAGS) + "];\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../harness/src/vocab.rs'), 'w').write(o)
