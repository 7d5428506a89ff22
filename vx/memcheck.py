"""Deciding memory and arithmetic obligations, with a frozen table of sites the facts cannot settle."""
import collections
from . import mem

# (kind, function) -> (how many different undecided sites, why each is fine). One more undecided site in the function, or one
# anywhere else, is a violation: an obligation that was provable has lost its guard, or a new one has none.
EXC = {
    # relations kept by a class between its own members (every method keeps them; not expressible as must-facts of one function)
    ("copy", "vrs::Decompressor::allocateCompressedDataBuffer"): (2, "decodedSize_ <= readSize_ <= compressedBuffer_.size() is kept by every method"),
    ("copy", "vrs::Decompressor::decompress"): (1, "decodedSize_ <= readSize_ <= compressedBuffer_.size() is kept by every method"),
    ("sub", "vrs::Decompressor::allocateCompressedDataBuffer"): (1, "decodedSize_ <= readSize_ is kept by every method"),
    ("sub", "vrs::Decompressor::decompress"): (1, "decodedSize_ <= readSize_ is kept by every method"),
    ("sub", "vrs::Decompressor::getCompressedDataSize"): (1, "decodedSize_ <= readSize_ is kept by every method"),
    ("sub", "vrs::Decompressor::getRemainingCompressedDataBufferSize"): (1, "decodedSize_ <= readSize_ is kept by every method"),
    ("sub", "vrs::Decompressor::initFrame"): (1, "readSize__ is a minimum that includes inOutMaxReadSize (nested minimum)"),
    ("sub", "vrs::Decompressor::readFrame"): (1, "readSize__ is a minimum that includes inOutMaxReadSize (nested minimum)"),
    ("copy", "vrs::Record::compressRecord"): (1, "usedBufferSize_ + header <= buffer_.size() is set by Record::set()"),
    ("sub", "vrs::Record::writeRecord"): (1, "usedBufferSize_ includes the direct write data size"),
    ("copy", "vrs::DataLayoutChunk::fillAndAdvanceBuffer"): (1, "layoutFixedSize_ is the size of the layout's fixed data"),
    ("sub", "vrs::AsyncDiskFileChunk::complete_write"): (1, "one decrement per started write"),
    ("first", "vrs::AsyncDiskFileChunk::get_free_buffer_locked"): (2, "the caller waits for a free buffer under the lock"),
    ("div", "vrs::AsyncDiskFileChunk::init_parameters"): (2, "alignments are validated options"),
    ("div", "vrs::AsyncDiskFileChunk::write"): (1, "alignments are validated when the file is opened"),
    ("sub", "vrs::AsyncDiskFileChunk::write"): (2, "bytes written never exceed bytes requested"),
    ("first", "vrs::DiskFileT::setPos"): (2, "an opened file has at least one chunk"),
    ("first", "vrs::DiskFileT::trySetPosInCurrentChunk"): (1, "an opened file has at least one chunk"),
    ("first", "vrs::DiskFileT::isLastChunk"): (1, "an opened file has at least one chunk"),
    ("first", "vrs::DiskFileT::addChunk"): (1, "the path of the chunk is not empty"),
    ("sub", "vrs::DiskFileT::read"): (1, "a chunk never reads more than requested"),
    ("copy", "vrs::DiskFileT::overwrite"): (1, "a chunk never writes more than requested"),
    ("first", "vrs::helpers::MemBuffer::addData"): (1, "reserve() leaves a buffer"),
    ("first", "vrs::helpers::MemBuffer::allocateSpace"): (1, "reserve() leaves a buffer"),
    ("sub", "vrs::helpers::MemBuffer::allocateSpace"): (1, "size() <= capacity()"),
    ("sub", "vrs::helpers::MemBuffer::reserve"): (1, "size() <= capacity()"),
    ("sub", "vrs::CompressedRecordReader::read"): (2, "a reader never reads more than requested"),
    ("sub", "vrs::UncompressedRecordReader::read"): (2, "a file never reads more than requested"),
    ("sub", "vrs::utils::BufferReader::read"): (2, "never copies more than requested"),
    ("sub", "vrs::ContentBlockReader::findNextContentBlockSpec"): (1, "called for a block that has a previous block"),
    ("sub", "vrs::DataLayout::isVarDataIndexValid"): (1, "value printed in a log message"),
    ("idx", "vrs::RecordFormatStreamPlayer::processRecord"): (1, "one reader is added per block, in order"),
    ("idx", "vrs::(anonymous namespace)::mapToBlockLayout"): (1, "one reader per block"),
    ("idx", "vrs::RecordFormat::getBlockSize"): (1, "documented precondition"),
    ("idx", "vrs::DataPieceArray::setDefault"): (1, "resized to the array's count, and the index is below it"),
    ("idx", "vrs::DataPieceVector::stage"): (1, "resized to the count of elements copied"),
    ("idx", "vrs::DataLayout::findMatch"): (1, "bounded by a minimum that includes the count"),
    ("idx", "vrs::MatrixND::operator[]"): (1, "documented precondition"),
    ("idx", "vrs::RecordFileReader::buildRecordBoundaries"): (1, "loop bounded by size() - 1 under a test for not empty"),
    ("idx", "vrs::RecordFileReader::readRecord"): (1, "pointer subtraction in a log message"),
    ("sub", "vrs::RecordFileReader::readFileDetails"): (1, "erasing never grows the index"),
    ("sub", "vrs::RecordFileReader::vrsFilePathToFileSpec"): (1, "target of a symbolic link, not empty"),
    ("sub", "vrs::MultiRecordFileReader::open"): (1, "value printed in a log message"),
    ("idx", "vrs::MultiRecordFileReader::getFileChunks"): (1, "filePaths_ parallels readers_"),
    ("first", "vrs::MultiRecordFileReader::getCachingStrategy"): (1, "an opened reader has at least one file"),
    ("first", "vrs::MultiRecordFileReader::reduceToRecordFileReader_TEMPORARY_API_TO_DELETE"): (1, "guarded by hasSingleFile()"),
    ("first", "vrs::RecordFileWriter::createFile"): (1, "size checked, through a disk file test, before"),
    ("sub", "vrs::RecordFileWriter::writeRecordsMultiThread"): (1, "the list only grows in between"),
    # index record
    ("idx", "vrs::IndexRecord::Writer::preallocateClassicIndexRecord"): (1, "index chosen from the same table"),
    ("idx", "vrs::IndexRecord::Writer::finalizeClassicIndexRecord"): (1, "index chosen from the same table"),
    ("copy", "(anonymous namespace)::writeClassicIndexRecord"): (1, "one element per stream was added"),
    ("copy", "(anonymous namespace)::writeDiskInfos"): (2, "one element per record of the batch was added"),
    ("copy", "vrs::FileDetailsCache::(anonymous namespace)::writeIndexData"): (1, "one element per stream was added"),
    ("copy", "vrs::FileDetailsCache::(anonymous namespace)::writeRecordInfo"): (1, "one element per record of the batch was added"),
    ("copy", "vrs::FileDetailsCache::(anonymous namespace)::readIndexData"): (1, "the size divides exactly (checked just before)"),
    ("sub", "(anonymous namespace)::writeClassicIndexRecord"): (2, "preallocated size includes the header and the streams"),
    ("sub", "vrs::IndexRecord::Reader::determineClassicIndexLayout"): (1, "both parts were compared before"),
    ("sub", "vrs::IndexRecord::Reader::processClassicIndexRecords"): (1, "one index entry at most per record"),
    # text
    ("idx", "vrs::(anonymous namespace)::validateUriSchema"): (1, "position returned by find()"),
    ("idx", "vrs::FileSpec::fromPathJsonUri"): (1, "position returned by find()"),
    ("sub", "vrs::FileSpec::parseUri"): (1, "an empty uri has been rejected"),
    ("idx", "vrs::TrafficEvent::setUrl"): (1, "stops at the terminator of the string"),
    ("sub", "vrs::helpers::beforeFileName"): (2, "lastDigitIndex() returns a position at or after the one given"),
    ("sub", "vrs::helpers::humanReadableFileSize"): (1, "literal"),
    ("div", "vrs::helpers::humanReadableFileSize"): (1, "power of two"),
    ("sub", "vrs::helpers::splitViews"): (1, "start follows the separator found"),
    ("sub", "vrs::(anonymous namespace)::printTextWrapped"): (3, "printing"),
    ("sub", "vrs::DataPieceArray::print"): (1, "printing: text ends with the separator removed"),
    ("sub", "vrs::DataPieceArray::printCompact"): (1, "printing: text ends with the separator removed"),
    ("sub", "vrs::DataPieceVector::print"): (2, "printing: text ends with the separator removed"),
    ("sub", "vrs::DataPieceVector::printCompact"): (1, "printing: text ends with the separator removed"),
    ("sub", "vrs::newErrorDomain"): (1, "an element was just inserted"),
    ("idx", "vrs::os::getCurrentExecutablePath"): (1, "readlink() returns at most the size given"),
    ("idx", "vrs::os::randomName"): (1, "distribution bounded by the size of the table"),
    ("idx", "vrs::os::randomName::{lambda}"): (1, "distribution bounded by the size of the table"),
    ("div", "vrs::utils::Throttler::report"): (1, "the frequency is at least one"),
    # utilities and tools
    ("copy", "(anonymous namespace)::writeHeader"): (1, "fixed size header"),
    ("copy", "vrs::utils::AudioExtractor::writeWavAudioData"): (1, "loop over whole samples of the block"),
    ("copy", "vrs::utils::pixel_conversions::normalizeBuffer"): (1, "frame of width * height pixels"),
    ("idx", "vrs::utils::pixel_conversions::normalizeBuffer"): (1, "percentile of a non empty sample"),
    ("div", "vrs::utils::pToColor"): (1, "constant"),
    ("sub", "vrs::utils::pToColor"): (1, "constant"),
    ("sub", "vrs::utils::shuffle"): (1, "table of constants"),
    ("idx", "vrs::utils::printSegColors"): (2, "debugging aid"),
    ("first", "vrs::utils::makeObjectIdSegmentationColors"): (1, "table of constants"),
    ("sub", "vrs::utils::makeObjectIdSegmentationColors"): (1, "table of constants"),
    ("div", "vrs::utils::printDifferences"): (1, "only after differences were found, so not empty"),
    ("idx", "vrs::utils::printDifferences"): (1, "called for buffers of the same size"),
    ("idx", "vrs::utils::isSameLine"): (1, "called for buffers of the same size"),
    ("div", "vrs::utils::printProgress"): (1, "called while copying a file that is not empty"),
    ("first", "vrs::utils::RecordFilterParams::includeExcludeStream"): (1, "splitViews() skips empty parts"),
    ("idx", "vrs::utils::(anonymous namespace)::NoDuplicateCopier::processRecordHeader"): (1, "one entry per record type"),
    ("idx", "vrs::utils::AudioBlock::opusDecompress"): (1, "filled up to the channel count"),
    ("idx", "vrs::utils::AudioCompressionHandler::create"): (1, "filled up to the channel count"),
    ("idx", "vrs::utils::FilteredFileReader::preRollConfigAndState"): (3, "indexes of the same index"),
    ("idx", "vrs::utils::PixelFrame::readPngFrame"): (1, "one row per line"),
    ("idx", "vrs::utils::PixelFrame::writeAsPng"): (1, "one row per line"),
    ("sub", "(anonymous namespace)::ImageOffsetWriter::onImageRead"): (1, "bytes left never exceed the record's size"),
    ("sub", "vrs::utils::ThrottledWriter::initTimeRange"): (1, "records are sorted by time"),
    ("idx", "vrs::RecordFileInfo::printOverview"): (1, "index of a record found before"),
    ("sub", "vrs::RecordFileInfo::(anonymous namespace)::printTags"): (1, "width is at least the minimum"),
    ("w32", "vrs::FileFormat::printVRSFileInternals"): (1, "sizes compared in a debug print only"),
    ("w32", "vrs::RecordFileReader::getFollowingRecordOffset"): (1, "record counts fit in 32 bits (limited when the index is read)"),
    ("w32", "vrs::utils::ImageExtractor::onImageRead"): (1, "count of processors"),
    ("w32", "vrs::utils::PixelFrame::psnrCompare"): (1, "difference of two 8 bit values"),
    ("idx", "(anonymous namespace)::getCommandSpec"): (2, "one entry per command (see the tables property)"),
}

WHAT = {"sub": "unsigned subtraction", "div": "integer division", "idx": "element access", "first": "first or last element", "copy": "memory copy or transfer",
        "w32": "32 bit result widened"}


def decide(c, rid, kinds):
    """one obligation per site; undecided sites beyond the table are violations"""
    left = collections.defaultdict(dict)
    for s in mem.all_sites(c.prog):
        if s.kind not in kinds:
            continue
        where = s.fn.loc(s.n)
        if s.ok:
            c.ok(rid[s.kind], where, "%s %s: %s" % (WHAT[s.kind], s.what, s.need))
            continue
        if s.kind == "copy" and "unknown capacity" in s.need:
            c.extra["transfers_with_memory_of_unknown_size_not_decided"] = c.extra.get("transfers_with_memory_of_unknown_size_not_decided", 0) + 1
            continue
        left[(s.kind, mem.fkey(s.fn))].setdefault(s.what, (s, where))
    for (kind, fn), m in sorted(left.items()):
        n, why = EXC.get((kind, fn), (0, None))
        if len(m) <= n:
            for what, (s, where) in m.items():
                c.excused.append(("%s %s %s" % (where, WHAT[kind], what), why))
            continue
        for what, (s, where) in sorted(m.items(), key=lambda x: x[1][1]):
            c.bad(rid[kind], where, "%s in %s is not protected on every path: %s needs %s" % (WHAT[kind], fn, what, s.need),
                  key="%s %s" % (fn, what))
