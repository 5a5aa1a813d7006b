#pragma once
#include "lazperf.hpp"
#include <cstdint>
#include <istream>
#include <ostream>
#include <string>
#include <vector>

namespace lazperf
{

struct vlr_header
{
    uint16_t reserved{0};
    std::string user_id;
    uint16_t record_id{0};
    uint16_t data_length{0};
    std::string description;

    static const int Size = 54;
    static vlr_header create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
    uint64_t size() const { return Size; }
};

struct evlr_header
{
    uint16_t reserved{0};
    std::string user_id;
    uint16_t record_id{0};
    uint64_t data_length{0};
    std::string description;

    static const int Size = 60;
    static evlr_header create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
    uint64_t size() const { return Size; }
};

struct vlr
{
    virtual ~vlr() = default;
    virtual uint64_t size() const = 0;
    virtual vlr_header header() const = 0;
    virtual evlr_header eheader() const = 0;
};

struct laz_vlr : public vlr
{
#pragma pack(push, 1)
    struct laz_item
    {
        uint16_t type;
        uint16_t size;
        uint16_t version;
    };
#pragma pack(pop)
    laz_vlr();
    laz_vlr(int format, int ebCount, uint32_t chunksize);
    laz_vlr(const char *data);
    static laz_vlr create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
    bool valid() const { return valid_; }
    uint64_t size() const override { return 34 + items.size() * 6; }
    vlr_header header() const override { return {0, "laszip encoded", 22204, (uint16_t)size(), "laz-perf variant"}; }
    evlr_header eheader() const override { return {0, "laszip encoded", 22204, size(), "laz-perf variant"}; }

    uint16_t compressor{3};
    uint16_t coder{0};
    uint8_t ver_major{3}, ver_minor{4};
    uint16_t revision{3};
    uint32_t options{0};
    uint32_t chunk_size{0};
    int64_t num_points{-1};
    int64_t num_bytes{-1};
    std::vector<laz_item> items;

  private:
    bool valid_{true};
};

struct eb_vlr : public vlr
{
    struct ebfield
    {
        uint8_t reserved[2]{};
        uint8_t data_type{1};
        uint8_t options{0};
        std::string name;
        uint8_t unused[4]{};
        double no_data[3]{};
        double minval[3]{};
        double maxval[3]{};
        double scale[3]{};
        double offset[3]{};
        std::string description;
    };

    eb_vlr() = default;
    eb_vlr(int ebCount);
    static eb_vlr create(std::istream &in, int byteSize);
    void read(std::istream &in, int byteSize);
    void write(std::ostream &out) const;
    void addField();
    void addField(const ebfield &f) { items.push_back(f); }
    uint64_t size() const override { return items.size() * 192; }
    vlr_header header() const override { return {0, "LASF_Spec", 4, (uint16_t)size(), ""}; }
    evlr_header eheader() const override { return {0, "LASF_Spec", 4, size(), ""}; }

    std::vector<ebfield> items;
};

struct wkt_vlr : public vlr
{
    wkt_vlr() = default;
    wkt_vlr(const std::string &s) : wkt(s) {}
    static wkt_vlr create(std::istream &in, int byteSize);
    void read(std::istream &in, int byteSize);
    void write(std::ostream &out) const;
    uint64_t size() const override { return wkt.size(); }
    vlr_header header() const override { return {0, "LASF_Projection", 2112, (uint16_t)size(), ""}; }
    evlr_header eheader() const override { return {0, "LASF_Projection", 2112, size(), ""}; }

    std::string wkt;
};

struct copc_info_vlr : public vlr
{
    copc_info_vlr() = default;
    static copc_info_vlr create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
    uint64_t size() const override { return 160; }
    vlr_header header() const override { return {0, "copc", 1, 160, "COPC info"}; }
    evlr_header eheader() const override { return {0, "copc", 1, 160, "COPC info"}; }

    double center_x{0};
    double center_y{0};
    double center_z{0};
    double halfsize{0};
    double spacing{0};
    uint64_t root_hier_offset{0};
    uint64_t root_hier_size{0};
    double gpstime_minimum{0};
    double gpstime_maximum{0};
    uint64_t reserved[11]{};
};

} // namespace lazperf
