from core import Unit
LEVEL = "proof"
TR = ["li_chunk_parser_next/done/reset/prepare deliver the bytes of the queue from the current position (contract in cbmc/chunked.c; their code is run by the executable contract)", "chunk queue operations: contract proved in C03", "glib GByteArray"]
UNITS = [
    Unit("chunked_decode", "chunked.c", "h_decode", ["li_filter_chunked_decode"], loops=True, trusted=TR, vacuity=5, bounded=dict(defines=["-DVP_BOUND=2"], unwind=7, timeout=400), extra=["--object-bits", "12"]),
    Unit("chunked_encode", "chunked.c", "h_encode", ["li_filter_chunked_encode", "http_chunk_append_len"], unwind=70, trusted=TR, vacuity=2, checks=["--bounds-check"], bounded=dict(defines=["-DVP_BOUND=11"], unwind=70, timeout=200)),
]
ASSUMPTIONS = ["bare CR inside trailer lines: not specified"]
NATIVE = dict(prog="C02.c", which=("common", "main"), seconds={"quick": 12, "thorough": 240})
