#pragma once
#include "lazperf.hpp"
#include <cstdint>
#include <cstring>
#include <istream>
#include <ostream>

namespace lazperf
{

struct vector3
{
    vector3() = default;
    vector3(double x, double y, double z) : x(x), y(y), z(z) {}
    double x{0}, y{0}, z{0};
};

struct base_header
{
    static const int Size = 375;
};

struct header14
{
    static const int Size = 375;
    char magic[4]{'L', 'A', 'S', 'F'};
    uint16_t file_source_id{0};
    uint16_t global_encoding{0};
    char guid[16]{};
    struct
    {
        uint8_t major{1};
        uint8_t minor{4};
    } version;
    char system_identifier[32]{};
    char generating_software[32]{};
    struct
    {
        uint16_t day{0};
        uint16_t year{0};
    } creation;
    uint16_t header_size{375};
    uint32_t point_offset{0};
    uint32_t vlr_count{0};
    uint8_t point_format_id{0};
    uint16_t point_record_length{0};
    uint32_t point_count{0};
    uint32_t points_by_return[5]{};
    vector3 scale;
    vector3 offset;
    double maxx{0}, minx{0}, maxy{0}, miny{0}, maxz{0}, minz{0};
    uint64_t wave_offset{0};
    uint64_t evlr_offset{0};
    uint32_t evlr_count{0};
    uint64_t point_count_14{0};
    uint64_t points_by_return_14[15]{};

    static header14 create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
    uint16_t ebCount() const;
    uint64_t pointCount() const { return point_count_14; }
    int pointFormat() const { return point_format_id & 0x3f; }
    bool pointFormatSupported() const { return pointFormat() >= 0 && pointFormat() <= 10; }
};

} // namespace lazperf
