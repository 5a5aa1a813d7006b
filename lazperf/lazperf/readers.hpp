#pragma once
#include "header.hpp"
#include "lazperf.hpp"
#include "vlr.hpp"
#include <istream>
#include <memory>

namespace lazperf
{
namespace reader
{

class basic_file
{
  protected:
    basic_file();
    virtual ~basic_file();
    bool open(std::istream &in);

  public:
    uint64_t pointCount() const;
    const header14 &header() const;
    void readPoint(char *out);
    laz_vlr lazVlr() const;
    std::vector<char> vlrData(const std::string &user_id, uint16_t record_id);

  protected:
    struct Private;
    std::unique_ptr<Private> p_;
};

class generic_file : public basic_file
{
  public:
    generic_file(std::istream &in);
    ~generic_file() override;
};

} // namespace reader
} // namespace lazperf
