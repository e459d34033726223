from core import Unit
LEVEL = "other"
UNITS = [Unit("encode", "encoding.c", "h_encode", ["li_string_encode", "li_string_encode_append"], unwind=8, checks=["--bounds-check", "--pointer-check"], is_bounded="strings of up to 5 bytes, all contents; each byte is encoded on its own", trusted=["glib: GString set_size / sized_new / truncate"]),
    Unit("string_fix", "strfix.c", "h_fix", ["li_string_prefix", "li_string_suffix"], unwind=8, vacuity=2, checks=["--bounds-check", "--pointer-check"], is_bounded="strings of up to 6 bytes, all contents")]
ASSUMPTIONS = ["the pages themselves are checked on the running server (parsed, compared with the directory, links followed)"]
NATIVE = dict(prog="C12.c", which=("common", "main"), seconds={"quick": 6, "thorough": 100})
E2E = dict(prog="C12.py", modules=["dirlist"], seconds={"quick": 8, "thorough": 100})
