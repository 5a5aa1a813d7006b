#pragma once
#include <copc-lib/copc/copc_config.hpp>
#include <copc-lib/geometry/box.hpp>
#include <copc-lib/hierarchy/key.hpp>
#include <copc-lib/io/copc_reader.hpp>
#include <copc-lib/io/copc_writer.hpp>
#include <copc-lib/io/laz_reader.hpp>
#include <copc-lib/io/laz_writer.hpp>
#include <copc-lib/las/header.hpp>
#include <copc-lib/las/point.hpp>
#include <copc-lib/las/points.hpp>
#include <copc-lib/laz/compressor.hpp>
#include <copc-lib/laz/decompressor.hpp>
#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
using namespace copc;
using las::Points;
#define CHECK(x)                                                                                                       \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(x))                                                                                                      \
        {                                                                                                              \
            std::cerr << "FAILED: " #x " at line " << __LINE__ << std::endl;                                           \
            std::exit(1);                                                                                              \
        }                                                                                                              \
    } while (0)
inline bool throws(const std::function<void()> &f)
{
    try
    {
        f();
    }
    catch (std::exception &)
    {
        return true;
    }
    return false;
}
// n points at (i+base, i+base, i+base), intensity i
inline Points some(const las::LasHeader &h, int n, double base = 0)
{
    Points p(h);
    for (int i = 0; i < n; i++)
    {
        auto q = p.CreatePoint();
        q->X(base + i);
        q->Y(base + i);
        q->Z(base + i);
        q->Intensity(i);
        p.AddPoint(q);
    }
    return p;
}
template <typename T> T at(const std::string &s, size_t o)
{
    T v;
    memcpy(&v, s.data() + o, sizeof(T));
    return v;
}
