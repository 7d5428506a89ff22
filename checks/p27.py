from vx import exc, mem

# functions which may throw all the same: (how many places, why)
EXC = {
    "vrs::AlignedBuffer::AlignedBuffer": (2, "memory exhaustion, and an alignment that's a constant of this code"),
    "vrs::AlignedBuffer::add": (1, "an internal invariant (the caller computes the room left)"),
    "vrs::AsyncBuffer::SigEvNotifyFunction": (5, "internal invariants of the asynchronous write state machine"),
    "vrs::utils::error_exit": (1, "called by libjpeg, within the try block of readJpegFrameHelper"),
    "vrs::MultiRecordFileReader::getUniqueStreamIdInternal": (2, "called for streams of this reader (callers check with getReader())"),
    "vrs::helpers::splitViews": (2, "a position found in the string, plus one, or 0"),
    "vrs::DataPiece::serialize": (1, "starts with the prefix, as compared just before"),
    "vrs::ContentBlock::ContentBlock": (1, "starts with the prefix, as compared just before"),
    "vrs::utils::RecordFilterParams::includeExcludeStream": (2, "empty tokens were skipped"),
}


def run(c):
    c.rule("parse", "What the number parsers throw is caught before it leaves the library.", 8)
    c.rule("position", "A position given to a string function, or an index or key given to at(), is known to be valid.", 12)
    c.rule("files", "File system functions are told to report errors with an error_code.", 12)
    c.rule("throw", "What the library's own throw expressions throw is caught before it leaves the library.", 0)
    c.rule("json", "JSON values are only used as what they were checked to be.", 40)
    exc.run(c, EXC, mem.in_scope)
