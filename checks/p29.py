from vx import nulls, mem

# functions with sites the facts cannot settle: (how many different ones, why each is fine)
EXC = {
    "(anonymous namespace)::ImageProcessor::endThreadPool": (1, "a job queue stays one after its jobs are dropped"),
    "(anonymous namespace)::writeDiskInfos": (1, "advanced once per record, counted by the batch size"),
    "vrs::AsyncBuffer::complete_write": (1, "set when the write is started"),
    "vrs::AsyncDiskFileChunk::write": (2, "a free buffer was just obtained"),
    "vrs::AudioBlockReader::readBlock": (0, "made by the same function before its first use", {"contentBlockSpec_"}),
    "vrs::CustomBlockReader::readBlock": (1, "made by the same function before its first use"),
    "vrs::ImageBlockReader::readBlock": (0, "made by the same function before its first use", {"contentBlockSpec_", "videoFrameSpec_"}),
    "vrs::DataLayout::copyMappedValues": (1, "parallel lists of the same size (checked by the caller)"),
    "vrs::FileDetailsCache::(anonymous namespace)::writeRecordInfo": (1, "advanced once per record, counted by the batch size"),
    "vrs::DiskFileChunk::eof": (0, "a chunk is opened before it's used", {"file_"}),
    "vrs::DiskFileChunk::flush": (0, "a chunk is opened before it's used", {"file_"}),
    "vrs::DiskFileChunk::read": (0, "a chunk is opened before it's used", {"file_"}),
    "vrs::DiskFileChunk::rewind": (0, "a chunk is opened before it's used", {"file_"}),
    "vrs::DiskFileChunk::write": (0, "a chunk is opened before it's used", {"file_"}),
    "vrs::IndexRecord::Reader::rebuildIndex": (2, "both are set when the index is to be written (flag writeFixedIndex)"),
    "vrs::IndexRecord::Writer::createSplitIndexRecord": (1, "called once initSplitHead() has set it"),
    "vrs::IndexRecord::Writer::finalizeSplitIndexRecord": (0, "called for a file with a split head", {"splitHeadFile_"}),
    "vrs::MultiRecordFileReader::areFilesRelated": (1, "not empty, and the loop stops at the end"),
    "vrs::MultiRecordFileReader::getFirstRecord": (1, "index below the count of records"),
    "vrs::MultiRecordFileReader::getLastRecord": (1, "index below the count of records"),
    "vrs::RecordFileReader::getNearestRecordByTime": (1, "stepped back from a position that isn't the first, of an index that isn't empty"),
    "vrs::getNearestRecordByTime": (1, "stepped back from a position that isn't the first, of an index that isn't empty"),
    "vrs::RecordFileWriter::backgroundWriterThreadActivity": (0, "only deleted once the thread was joined (P09)", {"writerThreadData_"}),
    "vrs::RecordFileWriter::writeRecordsMultiThread": (1, "assigned and compared within the same condition"),
    "vrs::RecordManager::createRecord": (2, "stepped back from the end of a list that isn't empty"),
    "vrs::utils::DataExtractor::DataExtractorStreamPlayer::writePngImage": (1, "normalizeFrame() sets it, called just before"),
    "vrs::utils::ImageExtractor::onImageRead": (1, "made by the constructor given a path"),
    "vrs::utils::PixelFrame::writeAsPng": (1, "checked when the writing functions are set, and after them"),
    "vrs::utils::frameRateEstimationFps": (3, "found before; neighbours have a count only when they're there"),
    "vrs::FileFormat::printVRSFileInternals": (1, "64 bits of nanoseconds are a date that localtime() can represent"),
    "vrs::utils::loadImage": (1, "normalizeFrame() sets it"),
    "vrs::internal::DataLayouter::dataLayoutEnd": (1, "aborts when there is no current layout"),
    "vrs::internal::DataLayouter::registerDataPiece": (2, "aborts when there is no current layout"),
}


def run(c):
    c.rule("checked", "What may be null, empty or the end of a container is checked, on every path, before it's used.", 200)
    c.rule("callers", "What a private function uses without a check was checked by its callers.", 0)
    nulls.run(c, EXC, mem.in_scope)
