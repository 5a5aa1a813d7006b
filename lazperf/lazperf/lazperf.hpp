// Stand-in for laz-perf 3.x (not installable here): same API and file-level conventions, simple self-checking codec.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace lazperf
{

using OutputCb = std::function<void(const unsigned char *, size_t)>;
using InputCb = std::function<void(unsigned char *, size_t)>;

struct error : public std::runtime_error
{
    error(const std::string &what) : std::runtime_error(what) {}
};

struct chunk
{
    uint64_t count;
    uint64_t offset;
};

class las_compressor
{
  public:
    using ptr = std::shared_ptr<las_compressor>;
    virtual const char *compress(const char *in) = 0;
    virtual void done() = 0;
    virtual ~las_compressor() = default;
};

class las_decompressor
{
  public:
    using ptr = std::shared_ptr<las_decompressor>;
    virtual char *decompress(char *in) = 0;
    virtual ~las_decompressor() = default;
};

las_compressor::ptr build_las_compressor(OutputCb, int format, size_t ebCount = 0);
las_decompressor::ptr build_las_decompressor(InputCb, int format, size_t ebCount = 0);

void compress_chunk_table(OutputCb cb, const std::vector<chunk> &chunks, bool variable);
std::vector<chunk> decompress_chunk_table(InputCb cb, size_t numChunks, bool variable);

} // namespace lazperf
