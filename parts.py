# Which programs decide which property.
def mc(src, **k): return dict(variant="mc", src=src, **k)
def seq(src, variant="asan", **k): return dict(variant=variant, src=src, **k)
SEQ_FLAGS = []
def big(prop): return seq("cbig", flags=["-UXTR_SINK_CAPACITY", '-DPROP="%s"' % prop], xtr_flags=["-UXTR_SINK_CAPACITY"])  # the default capacity
PARTS = {
    "C01": [mc("c01"), seq("c01"), big("C01")],
    "C02": [mc("c02")],
    "C03": [mc("c03"), seq("c03"), seq("c19", flags=["-DONLY_QUEUES"], xtr_flags=[]), big("C03")],
    "C04": [mc("c04")],
    "C05": [mc("c05"), seq("c05")],
    "C06": [mc("c06")],
    "C07": [mc("c07")],
    "C08": [seq("c08")],
    "C09": [seq("c09", variant="plain")],
    "C10": [seq("c10"), big("C10")],
    "C11": [seq("c11")],
    "C12": [seq("c12"), seq("c12", flags=["-DXTR_NDEBUG", "-DDEBUG_OUT"])],
    "C13": [seq("c13")],
    "C14": [seq("c14")],
    "C18": [seq("c18")],
    "C19": [seq("c19")],
    "C20": [seq("c20"), seq("c20", variant="plain", flags=["-DCOUNTER"])],
    "C21": [seq("c21", variant="plain")],
    "C22": [seq("c22", xtrctl=True)],
    "C23": [seq("c23")],
    "C24": [seq("c24")],
    "C25": [mc("c25"), seq("c25")],
    "C26": [seq("c26")],
    "C15": [seq("c15")],
    "C16": [seq("c16")],
    "C17": [seq("c17"), seq("c17l")],
}
