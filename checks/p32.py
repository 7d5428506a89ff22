from vx import mem, uninit

# (rule, function or class) -> (count of names, reason)
EXC = {
    ("members", "vrs::Compressor::uninitialized_byte"): (1, "made for that: bytes of buffers about to be filled"),
    ("members", "vrs::Record::uninitialized_byte"): (1, "made for that: bytes of buffers about to be filled"),
    ("members", "vrs::helpers::MemBuffer::uninitialized_byte"): (1, "made for that: bytes of buffers about to be filled"),
    ("members", "vrs::RecordFileReader"): (6, "init() is called for each record, before it is read"),
    ("locals", "vrs::utils::pixel_conversions::normalizeRGBXfloatToRGB8"): (1, "an array filled by a loop"),
}


def run(c):
    c.rule("members", "Every constructor gives a value to each scalar, pointer and enum member, directly or through the members it contains.", 100)
    c.rule("locals", "A local declared without a value gets one on every path to each of its reads, also where a call only gives it one on success.", 20)
    uninit.run(c, EXC, mem.in_scope)
