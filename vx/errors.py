"""Configuration of the status engine for this repository, its confirmed exceptions, and the split into checks."""
import collections, re
from . import status

NOT_STATUS = {
    # int-valued, but not an outcome
    "(anonymous namespace)::zstdPresetToCompressionLevel", "vrs::helpers::strcasecmp", "vrs::helpers::strncasecmp",
    "vrs::readUnaligned", "vrs::DataPieceValue::get", "vrs::errorDomainToErrorCodeStart",
}
ALWAYS_ERROR = {"vrs::domainError", "vrs::domainErrorCode", "vrs::os::getLastFileError", "__errno_location"}
EXTERNALS = {
    "fclose": "int", "fflush": "int", "fseeko": "int", "fseek": "int", "fseeko64": "int", "ftruncate": "int", "ftruncate64": "int",
    "rename": "int", "truncate": "int", "fsync": "int", "close": "int", "lseek64": "neg", "lseek": "neg",
    "fwrite": "count", "fread": "count", "vrs::os::fileWrite": "count", "vrs::os::fileRead": "count",
    "pwrite": "count", "pread": "neg", "open": "neg", "aio_write": "int",
}
MUTATORS = {"fwrite", "fflush", "fclose", "ftruncate", "rename", "aio_write", "pwrite", "close", "fputs", "fputc"}

# (file, callee, how many sites, why the outcome may be ignored there). The enclosing function is
# deliberately not part of the key: extracting a helper from it must not matter.
EXC = [
    # --- core: closing what is about to be replaced or destroyed
    ("vrs/AsyncDiskFileChunk.cpp", "AsyncDiskFileChunk::close", 3, "destructor and implicit close before (re)opening: nothing to report to; explicit close() is the reporting path"),
    ("vrs/AsyncDiskFileChunk.cpp", "AsyncDiskFileChunk::ensureOpenDirect", 1, "create() falls back to non-direct IO, whose status is returned"),
    ("vrs/DiskFile.cpp", "DiskFileT::close", 2, "implicit close before create()/openSpec()"),
    ("vrs/DiskFile.cpp", "DiskFileT::trySetPosInCurrentChunk", 1, "setPos() falls through to a search of the right chunk"),
    ("vrs/DiskFile.cpp", "ChunkT::read", 1, "partial read at the end of a chunk continues in the next chunk; the final status is derived from the byte count"),
    ("vrs/DiskFile.cpp", "DiskFileT::closeChunk", 1, "addChunk(): the new chunk is in use already; logged"),
    ("vrs/DiskFile.cpp", "ChunkT::tell", 2, "getPos()/getChunkPos() return a position, lastError_ keeps the status"),
    ("vrs/DiskFile.cpp", "FileHandler::open", 1, "readTextFile(): returns an empty string on failure, by contract"),
    ("vrs/DiskFile.cpp", "DiskFileT::read", 1, "readTextFile(): returns an empty string on failure, by contract"),
    ("vrs/DiskFile.cpp", "AtomicDiskFile::close", 1, "destructor"),
    ("vrs/DiskFile.cpp", "os::rename", 1, "retried after removing the target; the retry's status is returned"),
    ("vrs/DiskFileChunk.hpp", "DiskFileChunk::close", 3, "destructor and implicit close before (re)opening"),
    ("vrs/DiskFileChunk.hpp", "os::fileClose", 1, "implicit close of the previous handle before open()"),
    # --- core: reading, where failing has a fallback
    ("vrs/ErrorCode.cpp", "newDomainErrorCode", 1, "creates an error code; not an outcome"),
    ("vrs/FileHandler.cpp", "FileHandler::openSpec", 2, "delegateOpen(): the delegate's status is kept; 'not found' selects the next candidate"),
    ("vrs/FileSpec.cpp", "FileSpec::decodeQuery", 1, "malformed query parameters are skipped"),
    ("vrs/FileSpec.cpp", "FileHandlerFactory::parseUri", 1, "fromPathJsonUri() falls back to parsing as a path"),
    ("vrs/IndexRecord.cpp", "Decompressor::readFrame", 1, "a truncated split index is readable up to the truncation: the caller recovers what was read"),
    ("vrs/IndexRecord.cpp", "Decompressor::initFrame", 1, "a truncated split index is readable up to the truncation: the caller recovers what was read"),
    ("vrs/IndexRecord.cpp", "FileHandler::setPos", 2, "rebuildIndex() stops at the first unreadable record; finalizeClassicIndexRecord() retries with a new index record"),
    ("vrs/IndexRecord.cpp", "FileHandler::read", 1, "rebuildIndex() stops at the first unreadable record"),
    ("vrs/IndexRecord.cpp", "FileHandler::skipForward", 1, "rebuildIndex() stops at the first unreadable record"),
    ("vrs/IndexRecord.cpp", "IndexRecord::Reader::readSplitIndexRecord", 1, "rebuildIndex() recovers what can be recovered"),
    ("vrs/IndexRecord.cpp", "writeClassicIndexRecord", 1, "finalizeClassicIndexRecord(): failing to use the preallocated space falls back to appending the index"),
    ("vrs/MultiRecordFileReader.cpp", "MultiRecordFileReader::close", 2, "destructor; reader handed over"),
    ("vrs/RecordFileReader.cpp", "RecordFileReader::closeFile", 2, "destructor; doOpenFile() returns the error that made it close"),
    ("vrs/RecordFileReader.cpp", "DiskFileT::openSpec", 1, "vrsFilePathToFileSpec(): peeks at the file to detect a link; the path is used as is otherwise"),
    ("vrs/RecordFileReader.cpp", "DiskFileT::read", 1, "vrsFilePathToFileSpec(): peeks at the file to detect a link; the path is used as is otherwise"),
    ("vrs/RecordFileReader.cpp", "FileCache::getFile", 2, "cache miss: read the file itself"),
    ("vrs/RecordFileReader.cpp", "FileDetailsCache::read", 1, "cache miss: read the file itself"),
    ("vrs/RecordFileReader.cpp", "FileDetailsCache::write", 1, "the cache is an optimisation"),
    ("vrs/RecordFileReader.cpp", "DiskFileT::readZstdFile", 1, "cache miss: read the file itself"),
    ("vrs/RecordFileReader.cpp", "DiskFileT::writeZstdFile", 1, "the cache is an optimisation"),
    ("vrs/RecordFileReader.cpp", "IndexRecord::Reader::readRecord", 1, "an unreadable index is rebuilt when allowed"),
    ("vrs/RecordFileReader.cpp", "IndexRecord::Reader::rebuildIndex", 1, "recovers what can be recovered; an empty index is usable"),
    ("vrs/RecordFileReader.cpp", "FileHandler::setPos", 1, "a description record that can't be read doesn't prevent reading the index"),
    ("vrs/RecordFileReader.cpp", "DescriptionRecord::readDescriptionRecord", 1, "a description record that can't be read doesn't prevent reading the index"),
    ("vrs/RecordFileReader.cpp", "RecordFileReader::readRecord", 1, "legacy description: stream descriptions read from configuration records, best effort"),
    ("vrs/RecordFileReader.cpp", "FileHandler::read", 1, "readRecord(): at the end of the file the record header in hand is used"),
    # --- core: the background writer reports through the sticky status returned by waitForFileClosed()
    ("vrs/RecordFileWriter.cpp", "FileHandler::close", 1, "background thread: kept in the sticky status"),
    ("vrs/RecordFileWriter.cpp", "RecordFileWriter::writeRecordsAsync", 2, "status is sticky: reported by waitForFileClosed()"),
    ("vrs/RecordFileWriter.cpp", "RecordFileWriter::closeFileAsync", 1, "status is sticky: reported by waitForFileClosed()"),
    ("vrs/RecordFileWriter.cpp", "WriteFileHandler::addChunk", 1, "chunking is best effort: writing goes on in the current chunk; logged"),
    ("vrs/RecordFileWriter.cpp", "RecordFileWriter::waitForFileClosed", 1, "destructor"),
    ("vrs/RecordFormatStreamPlayer.cpp", "RecordReader::read", 1, "skips the block; what follows is read or rejected by its own reader"),
    ("vrs/RecordFormatStreamPlayer.cpp", "ContentBlockReader::readBlock", 1, "players stop at the block; the record reader skips what is left"),
    # --- utils & tools
    ("vrs/utils/AudioExtractor.cpp", "AudioExtractor::closeWavFile", 2, "player callback and destructor without a status; verified and logged"),
    ("vrs/utils/AudioExtractor.cpp", "AudioExtractor::writeWavAudioData", 1, "player callback without a status; verified and logged"),
    ("vrs/utils/AudioExtractor.cpp", "AudioExtractor::createWavFile", 1, "player callback without a status; verified and logged"),
    ("vrs/utils/AudioTrackExtractor.cpp", "AudioExtractor::closeWavFile", 2, "destructor; reported in the summary"),
    ("vrs/utils/AudioTrackExtractor.cpp", "AudioExtractor::writeWavAudioData", 1, "reported through the summary's status"),
    ("vrs/utils/AudioTrackExtractor.cpp", "AudioExtractor::createWavFile", 1, "reported through the summary's status"),
    ("vrs/utils/AudioTrackExtractor.cpp", "RecordReader::read", 1, "reported through the summary's status"),
    ("vrs/utils/AudioTrackExtractor.cpp", "DiskFileT::create", 1, "writeJson(): the JSON copy of a summary that is returned anyway"),
    ("vrs/utils/AudioTrackExtractor.cpp", "DiskFileT::write", 1, "writeJson(): the JSON copy of a summary that is returned anyway"),
    ("vrs/utils/AudioTrackExtractor.cpp", "DiskFileT::close", 1, "writeJson(): the JSON copy of a summary that is returned anyway"),
    ("vrs/utils/DataExtractor.cpp", "RecordReader::read", 1, "player callback: best effort on a damaged source record; logged"),
    ("vrs/utils/DataExtractor.cpp", "PixelFrame::writeAsPng", 1, "background image job without a status; logged"),
    ("vrs/utils/DataExtractor.cpp", "DataExtractor::completeOutput", 1, "destructor"),
    ("vrs/utils/FilterCopy.cpp", "RecordFileWriter::preallocateIndex", 2, "optimisation of the index's place"),
    ("vrs/utils/FilterCopy.cpp", "RecordFileReader::readRecord", 1, "best effort on damaged source records"),
    ("vrs/utils/FilterCopyHelpers.cpp", "RecordReader::read", 2, "best effort on damaged source records; logged"),
    ("vrs/utils/FilteredFileReader.cpp", "RecordFileReader::readRecord", 1, "best effort on damaged source records; logged"),
    ("vrs/utils/FilteredFileReader.h", "FilteredFileReader::setSource", 1, "constructor; openFile() fails on an invalid source"),
    ("vrs/utils/ImageExtractor.cpp", "PixelFrame::writeAsPng", 1, "background image job without a status; logged"),
    ("vrs/utils/ImageExtractor.cpp", "PixelFrame::readRawFrame", 1, "best effort on damaged source records; logged"),
    ("vrs/utils/ImageIndexer.cpp", "VideoRecordFormatStreamPlayer::readFrame", 1, "indexing needs the block's position, not its data"),
    ("vrs/utils/PixelFrame.cpp", "RecordReader::read", 1, "best effort on a truncated raw image, whose missing rows are blank"),
    ("vrs/utils/PixelFrame.cpp", "fflush", 1, "console output"),
    ("vrs/utils/PixelFrameJpeg.cpp", "fclose", 1, "file open for reading"),
    ("vrs/utils/RecordFileInfo.cpp", "RecordFileReader::openFile", 1, "jsonOverview() describes the failure in the json returned"),
    ("vrs/utils/ThrottleHelpers.cpp", "RecordFileWriter::writeRecordsAsync", 2, "status is sticky: reported when closing"),
    ("vrs/utils/ThrottleHelpers.cpp", "RecordFileWriter::closeFileAsync", 1, "followed by waitForFileClosed(), which reports"),
    ("vrs/utils/Validation.cpp", "RecordFileReader::readRecord", 2, "the checker's players report what fails"),
    ("vrs/utils/Validation.cpp", "ThrottledWriter::closeFile", 3, "no file is written when checking"),
    ("vrs/utils/Validation.cpp", "FilteredFileReader::openFile", 1, "recordsChecksum() returns an error message"),
    ("vrs/utils/Validation.cpp", "FileHandler::read", 1, "verbatimChecksum(): logged, returns no checksum"),
    ("vrs/utils/cli/CompressionBenchmark.cpp", "filterCopy", 3, "benchmark runs; failures show in the report"),
    ("vrs/utils/cli/CompressionBenchmark.cpp", "RecordFileReader::openFile", 1, "benchmark runs; failures show in the report"),
    ("tools/vrs/VrsCommand.cpp", "FilteredFileReader::setSource", 1, "validated when opening"),
    ("tools/vrs/VrsCommand.cpp", "compareVerbatim", 1, "the comparison's result is printed"),
]
SKIP_FN = {"vrs::FileFormat::printVRSFileInternals"}   # forensic dump: keeps going over damage by design


def short(qn):
    """callee name without namespaces or template arguments"""
    if not qn:
        return "?"
    q = re.sub(r"<[^<>]*>", "", qn)
    while "<" in q:
        q2 = re.sub(r"<[^<>]*>", "", q)
        if q2 == q:
            break
        q = q2
    parts = [x for x in q.split("::") if x and x not in ("vrs", "utils", "cli", "(anonymous namespace)")]
    return "::".join(parts)


def norm_callee(file, callee):
    s = short(callee)
    # the two chunk classes are the template argument of one piece of code
    if file == "vrs/DiskFile.cpp" and s.split("::")[0] in ("DiskFileChunk", "AsyncDiskFileChunk"):
        s = "ChunkT::" + s.split("::", 1)[1]
    return s


class Errors:
    def __init__(self, prog):
        cfg = status.Cfg()
        cfg.not_status, cfg.always_error = NOT_STATUS, ALWAYS_ERROR
        cfg.externals = EXTERNALS
        cfg.sinks = {"setFileError", "set_async_error"}
        self.p = prog
        self.S = status.Status(prog, cfg)
        self._mut = {}
        self.sites = {}     # (file, line, callee) -> dict
        for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.qn)):
            if "vrsplayer" in f.file or "logging" in f.file or f.qn in SKIP_FN:
                continue
            if f.parent and any(a.qn in SKIP_FN for a in self.outer(f)):
                continue
            s = self.S.summary(f)
            if s.get("overflow"):
                self.add_overflow(f, s["overflow"])
            for nid in s.get("sites", {}):
                n = f.nodes[nid]
                if (n.get("qn") or "").startswith("vrs::logging"):
                    continue
                self.site(f, n)
            for (nid, why), r in s.get("viol", {}).items():
                n = f.nodes[nid]
                if (n.get("qn") or "").startswith("vrs::logging"):
                    continue
                d = self.site(f, n)
                d["viol"].append((why, f.nodes[r]["l"] if r is not None else None))

    overflow = ()

    def add_overflow(self, f, es):
        self.overflow = tuple(self.overflow) + tuple((f.display(), f.loc(e)) for e in es)

    def outer(self, f):
        while f.parent:
            f = self.p.fns.get(f.parent)
            if f is None:
                return
            yield f

    def site(self, f, n):
        callee = norm_callee(f.file, n.get("qn") or n.get("nm"))
        key = (f.file, n["l"], n.get("c", 0), callee)
        d = self.sites.get(key)
        if d is None:
            d = self.sites[key] = {"file": f.file, "line": n["l"], "fn": short(f.display()), "callee": callee, "viol": [], "mut": self.mutates(f, n)}
        return d

    def mutates(self, f, n):
        """may this call change storage?"""
        if n.get("qn") in MUTATORS:
            return True
        return any(self.fmut(t) for t in self.p.targets(f, n))

    def fmut(self, t):
        if t.usr in self._mut:
            return self._mut[t.usr]
        self._mut[t.usr] = False
        r = False
        for n in t.calls():
            if n.get("qn") in MUTATORS or any(self.fmut(x) for x in self.p.targets(t, n)):
                r = True
                break
        self._mut[t.usr] = r
        return r

    def core(self, d):
        return not d["file"].startswith(("vrs/utils/", "tools/"))


def decide(c, select, rid, text, floor, hint):
    E = Errors(c.prog)
    c.rule(rid, text, floor)
    if E.overflow:
        c.extra["states_exhausted"] = ["%s at %s" % x for x in E.overflow]
    budget = collections.Counter()
    reasons = {}
    for file, callee, cnt, why in EXC:
        budget[(file, callee)] += cnt
        reasons[(file, callee)] = why
    flagged = collections.defaultdict(list)
    for key in sorted(E.sites):
        d = E.sites[key]
        if not select(E, d):
            continue
        where = "%s:%d" % (d["file"], d["line"])
        if not d["viol"]:
            c.ok(rid, where, "%s: the outcome of %s is reported on every path" % (d["fn"], d["callee"]))
        else:
            flagged[(d["file"], d["callee"])].append(d)
    for k, ds in sorted(flagged.items()):
        if len(ds) <= budget[k]:
            for d in ds:
                c.excused.append(("%s:%d %s -> %s" % (d["file"], d["line"], d["fn"], d["callee"]), reasons[k]))
            continue
        fns = collections.Counter(d["fn"] for d in ds)
        for d in ds:
            where = "%s:%d" % (d["file"], d["line"])
            why, ret = d["viol"][0]
            c.bad(rid, where, "%s: the outcome of %s is %s (%s)%s" % (
                d["fn"], d["callee"], why,
                {"dropped": "never looked at on some path", "swallowed": "known to have failed, yet the caller is told otherwise",
                 "lost": "overwritten before it is used", "inverted": "reported with the wrong sense"}.get(why, why),
                "; returns at line %s" % ret if ret else ""),
                key="%s|%s|%s" % (d["file"], d["fn"], d["callee"]),
                detail="%d site(s) with this callee in this file are confirmed exceptions (%s); %d found: %s" % (
                    budget[k], reasons.get(k, "none"), len(ds), ", ".join("%s:%d" % (x["file"], x["line"]) for x in ds)))
    c.assumptions.append(hint)
