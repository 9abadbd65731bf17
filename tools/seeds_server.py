import sys; sys.path.insert(0, "/verif/tools")
from newseed import make
HELP = open("/verif/tools/httpdemo.py").read()
def demo(body):
    return """#!/bin/bash
# runs the built server in a network namespace of its own when it may
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$d PYTHONDONTWRITEBYTECODE=1
if unshare -Urn sh -c 'ip link set lo up' 2>/dev/null; then
  exec unshare -Urn sh -c 'ip link set lo up && exec python3 "$0"' "$d/demo.py"
fi
exec python3 "$d/demo.py"
""", {"httpdemo.py": HELP, "demo.py": "from httpdemo import *\n" + body}
def mk(id, prop, edits, needs, breaks, body):
    d, f = demo(body)
    make(id, prop, edits, needs, breaks, d, f)
P = "src/iiif/parse.rs"; H = "src/http.rs"; L = "src/lib.rs"; R = "src/resolve.rs"
mk("region-empty-is-full", "C01", [(P, '"full" => Ok(Region::Full)', '"full" | "" => Ok(Region::Full)')],
   "an empty region segment", "an empty region is accepted as full",
   'with Server({"a": "x"}):\n    assert ask("/a/full/max/0/default.jpg")[0] == 200\n    assert ask("/a//max/0/default.jpg")[0] == 400\n')
mk("size-percent-rounds", "C02", [(P, "(scale <= 100.0 || upscale)", "(scale as u32 <= 100 || upscale)")],
   "a percentage between 100 and 101 without ^", "pct:100.5 upscales although upscaling was not requested",
   'with Server({"a": "x"}):\n    assert ask("/a/full/pct:100/0/default.jpg")[0] == 200\n    assert ask("/a/full/^pct:100.5/0/default.jpg")[0] == 200\n    assert ask("/a/full/pct:100.5/0/default.jpg")[0] == 400\n')
mk("rotation-mirror-twice", "C03", [(P, "let rotation = if mirror { &s[1..] } else { s };", "let rotation = s.trim_start_matches('!');")],
   "a rotation with more than one exclamation mark", "!!90 is accepted",
   'with Server({"a": "x"}):\n    assert ask("/a/full/max/!90/default.jpg")[0] == 200\n    assert ask("/a/full/max/!!90/default.jpg")[0] == 400\n')
mk("identifier-plus-is-space", "C04", [(H, "urlencoding::decode(input).map_err(|err| ImageRequestError::UriNotUtf8(\"identifier\"))",
    "urlencoding::decode(&input.replace('+', \"%20\"))\n                .map(|id| id.into_owned())\n                .map_err(|err| ImageRequestError::UriNotUtf8(\"identifier\"))")],
   "an identifier with a plus sign", "plus signs of identifiers are read as spaces, as in form data",
   'with Server({"a+b": "x", "c d": "x"}):\n    assert ask("/c%20d/full/max/0/default.jpg")[0] == 200\n    assert ask("/c+d/full/max/0/default.jpg")[0] == 400\n    assert ask("/a+b/full/max/0/default.jpg")[0] == 200\n')
REG = """    let region = segments
        .next()
        .ok_or(ImageRequestError::UriMissingElement("region"))?
        .parse::<Region>()
        .map_err(ImageRequestError::from)?;

"""
mk("region-checked-last", "C05", [(H, REG, """    let region = segments
        .next()
        .ok_or(ImageRequestError::UriMissingElement("region"))?
        .parse::<Region>()
        .map_err(ImageRequestError::from);

"""), (H, "    Ok(ImageRequest::new(identifier, region, size", "    let region = region?;\n\n    Ok(ImageRequest::new(identifier, region, size")],
   "a path in which the region and a later segment are both wrong", "the complaint is about the later segment instead of the first wrong one",
   'with Server({"a": "x"}):\n    a = ask("/a/1,2,3/max/0/default.jpg")\n    b = ask("/a/1,2,3/max/0/default.xyz")\n    assert a == b, (a, b)\n')
mk("backslash-is-separator", "C07", [(R, "let file = self.path.join(ident);", "// clients on Windows send backslashes\n        let file = self.path.join(ident.replace('\\\\', \"/\"));")],
   "an identifier with a backslash after two dots", "..\\x leads out of the image directory",
   'with Server({"sub/a": "x"}) as s:\n    open(os.path.join(s.top, "secret"), "w").write("x")\n    assert ask("/sub%2Fa/full/max/0/default.jpg")[0] == 200\n    assert ask("/..%5Csecret/full/max/0/default.jpg")[0] == 400\n')
mk("trailing-slash-ignored", "C08", [(R, "let file = self.path.join(ident);", "let file = self.path.join(ident.trim_end_matches('/'));")],
   "an identifier which is a file name with a slash behind it", "name%2F answers like name",
   'with Server({"a": "x"}):\n    assert ask("/a/full/max/0/default.jpg")[0] == 200\n    assert ask("/a%2F/full/max/0/default.jpg")[0] == 400\n')
mk("permit-kept-on-error", "C06", [(L, "// TODO\n                        }", "// the peer is gone\n                            std::mem::forget(_permit);\n                        }")],
   "more than max_connections connections per worker which end in an error", "every aborted connection uses up a permit until no worker serves any more",
   '''import struct
with Server({"a": "x"}):
    for i in range(9500):
        s = socket.create_connection(("127.0.0.1", PORT), 10)
        s.sendall(b"\\x16\\x03\\x01 nonsense\\r\\n\\r\\n")
        if i % 50 == 0:
            s.settimeout(10); s.recv(1000)
        s.close()
    time.sleep(1)
    for i in range(64):
        assert ask("/a/full/max/0/default.jpg")[0] == 200
''')
mk("info-json-anywhere", "C06", [(H, 'p.ends_with("info.json")', 'p.contains("/info.json")')],
   "an image whose identifier is info.json", "image requests for such images are answered as information requests",
   'with Server({"info.json": "x"}):\n    assert ask("/info.json/full/max/0/default.jpg")[0] == 200\n')
