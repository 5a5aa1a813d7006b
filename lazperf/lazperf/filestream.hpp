#pragma once
#include "lazperf.hpp"
#include <istream>
#include <memory>
#include <ostream>

namespace lazperf
{

struct OutFileStream
{
    OutFileStream(std::ostream &out) : out_(out) {}
    OutputCb cb()
    {
        std::ostream *o = &out_;
        return [o](const unsigned char *b, size_t n) { o->write(reinterpret_cast<const char *>(b), (std::streamsize)n); };
    }

  private:
    std::ostream &out_;
};

// Buffered input: reads ahead as far as it can, as laz-perf does, so the stream usually ends up at EOF.
struct InFileStream
{
    InFileStream(std::istream &in);
    ~InFileStream();
    InputCb cb();
    void reset();

  private:
    struct Private;
    std::unique_ptr<Private> p_;
};

} // namespace lazperf
