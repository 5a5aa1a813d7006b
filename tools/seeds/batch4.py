SEEDS = [
dict(id='page-entries-8-bit', property='C07', needs='a hierarchy page of more than 255 entries',
 breaks='only the number of entries modulo 256 is read from a page',
 edits=[('cpp/src/io/copc_reader.cpp', 'int num_entries = int(page->byte_size / Entry::ENTRY_SIZE);', 'uint8_t num_entries = uint8_t(page->byte_size / Entry::ENTRY_SIZE);')],
 demo='''int main()
{
    for (int n : {20, 300})
    {
        std::stringstream s;
        CopcConfigWriter cfg(6);
        Writer w(s, cfg);
        for (int i = 0; i < n; i++)
            w.AddNode(VoxelKey(4, i % 16, i / 16 % 16, i / 256), some(*w.CopcConfig()->LasHeader(), 1 + i % 3));
        w.Close();
        Reader r(&s);
        CHECK(r.GetAllNodes().size() == n);
        for (int i = 0; i < n; i++)
            CHECK(r.FindNode(VoxelKey(4, i % 16, i / 16 % 16, i / 256)).point_count == 1 + i % 3);
    }
}
'''),
dict(id='page-size-16-bit', property='C02', needs='a hierarchy page of more than 2047 entries',
 breaks='the size of a page wraps at 64 KiB',
 edits=[('cpp/src/io/copc_writer_internal.cpp', '    auto page_size = page->nodes.size() * 32;', '    uint16_t page_size = page->nodes.size() * 32;')],
 demo='''int main()
{
    for (int n : {20, 2100})
    {
        std::stringstream s;
        CopcConfigWriter cfg(6);
        Writer w(s, cfg);
        for (int i = 0; i < n; i++)
            w.AddNode(VoxelKey(5, i % 32, i / 32 % 32, i / 1024), some(*w.CopcConfig()->LasHeader(), 1));
        w.Close();
        Reader r(&s);
        CHECK(r.GetAllNodes().size() == n);
        CHECK(r.CopcConfig().CopcInfo().root_hier_size == n * 32);
    }
}
'''),
dict(id='extents-copy-eight-fields', property='C18', needs='an override of the point format with more than eight extra-byte fields',
 breaks='the ranges of extra-byte fields after the eighth are not carried over to the new format',
 edits=[('cpp/src/copc/extents.cpp', '        for (int i{0}; i < num_eb_items; i++)', '        for (int i{0}; i < (std::min)(static_cast<int>(num_eb_items), 8); i++)')],
 demo='''int main()
{
    for (int n : {2, 11})
    {
        std::stringstream s;
        las::EbVlr eb(n);
        for (int i = 0; i < n; i++)
            eb.items[i] = las::EbVlr::ebfield(), eb.items[i].data_type = 1, eb.items[i].name = "f" + std::to_string(i);
        CopcConfigWriter cfg(6, Vector3::DefaultScale(), Vector3::DefaultOffset(), "", eb);
        std::vector<std::shared_ptr<CopcExtent>> v;
        for (int i = 0; i < n; i++)
            v.push_back(std::make_shared<CopcExtent>(i, i + 1));
        cfg.CopcExtents()->ExtraBytes(v);
        Writer w(s, cfg, 7);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
        w.Close();
        Reader r(&s);
        auto e = r.CopcConfig().CopcExtents().ExtraBytes();
        CHECK(e.size() == n);
        for (int i = 0; i < n; i++)
            CHECK(e[i]->minimum == i && e[i]->maximum == i + 1);
    }
}
'''),
dict(id='setter-16-bit-index', property='C26', needs='more than 65535 points',
 breaks='the bulk setter of the red channel sets only the first points',
 edits=[('cpp/include/copc-lib/las/points.hpp', '''        for (unsigned i = 0; i < points_.size(); ++i)
            points_[i]->Red(in[i]);''', '''        for (uint16_t i = 0, n = static_cast<uint16_t>(points_.size()); i < n; ++i)
            points_[i]->Red(in[i]);''')],
 demo='''int main()
{
    for (int n : {100, 70000})
    {
        Points p(7);
        for (int i = 0; i < n; i++)
            p.AddPoint(p.CreatePoint());
        std::vector<uint16_t> v(n);
        for (int i = 0; i < n; i++)
            v[i] = i * 7 + 1;
        p.Red(v);
        CHECK(p.Red() == v);
    }
}
'''),
dict(id='unpack-16-bit-count', property='C15', needs='more than 65535 records unpacked at once',
 breaks='only the number of records modulo 65536 is unpacked',
 edits=[('cpp/src/las/points.cpp', '    uint64_t point_count = point_data.size() / point_record_length;', '    uint16_t point_count = point_data.size() / point_record_length;')],
 demo='''int main()
{
    las::LasHeader h(6, 30, Vector3(1, 1, 1), Vector3(0, 0, 0), false);
    for (int n : {100, 70000})
    {
        auto p = some(h, n);
        auto q = Points::Unpack(p.Pack(h), h);
        CHECK(q.Size() == n);
        CHECK(q.X() == p.X() && q.Z() == p.Z());
    }
}
'''),
dict(id='evlr-length-32-bit', property='C32', needs='an extended VLR of more than 4 GiB before another one',
 breaks='the records after an extended VLR of more than 4 GiB are not found',
 edits=[('cpp/src/io/base_reader.cpp', '''        in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
    }

    return out;''', '''        in_stream_->seekg(static_cast<uint32_t>(h.data_length), std::ios::cur); // jump foward
    }

    return out;''')],
 demo='''int main()
{
    std::string path = "evlr.copc.laz";
    bool ok = true;
    for (uint64_t hole : {uint64_t(100), uint64_t(5) << 30})
    {
        std::stringstream s;
        {
            CopcConfigWriter cfg(6, Vector3::DefaultScale(), Vector3::DefaultOffset(), "SOME WKT");
            Writer w(s, cfg);
            w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
            w.Close();
        }
        std::string x = s.str();
        size_t wkt = x.size() - 60 - 8;
        while (wkt > 0 && x.compare(wkt + 2, 15, "LASF_Projection"))
            wkt--;
        std::string unknown(60, 0);
        memcpy(&unknown[2], "someone", 7);
        unknown[18] = 5;
        memcpy(&unknown[20], &hole, 8);
        auto last = x.substr(wkt);
        x = x.substr(0, wkt) + unknown;
        uint32_t count = 3;
        memcpy(&x[243], &count, 4);
        {
            std::ofstream f(path, std::ios::binary);
            f.write(x.data(), x.size());
            f.seekp(x.size() + hole);
            f.write(last.data(), last.size());
        }
        try
        {
            FileReader r(path);
            ok = ok && r.CopcConfig().Wkt() == "SOME WKT" && r.GetAllNodes().size() == 1;
        }
        catch (std::exception &e)
        {
            ok = false;
        }
        std::remove(path.c_str());
    }
    CHECK(ok);
}
'''),
dict(id='bounds-else-if', property='C12', needs='a point that lies below and above the former bounds of a dimension, as the first point for inverted bounds does',
 breaks='the first point sets only one side of the bounds',
 edits=[('cpp/src/las/header.cpp', '    if (point.Y() > max.y)', '    else if (point.Y() > max.y)')],
 demo='''int main()
{
    las::LasHeader h(6, 30, Vector3(1, 1, 1), Vector3(0, 0, 0), false);
    double inf = std::numeric_limits<double>::max();
    h.min = Vector3(inf, inf, inf);
    h.max = Vector3(-inf, -inf, -inf);
    las::Point p(6);
    p.X(3), p.Y(4), p.Z(5);
    h.CheckAndUpdateBounds(p);
    CHECK(h.min == Vector3(3, 4, 5));
    CHECK(h.max == Vector3(3, 4, 5));
}
'''),
dict(id='compress-16-bit-count', property='C01', needs='a node of more than 65535 points',
 breaks='only the number of points modulo 65536 is compressed',
 edits=[('cpp/include/copc-lib/laz/compressor.hpp', 'int32_t point_count = static_cast<int32_t>(in.size()) / point_size;', 'uint16_t point_count = static_cast<int32_t>(in.size()) / point_size;')],
 demo='''int main()
{
    for (int n : {100, 70000})
    {
        std::stringstream s;
        CopcConfigWriter cfg(6);
        Writer w(s, cfg);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), n));
        w.Close();
        Reader r(&s);
        CHECK(r.GetPoints(VoxelKey(0, 0, 0, 0)).Size() == n);
    }
}
'''),
dict(id='page-stops-at-end', property='C24', needs='a file cut within a hierarchy page, at the boundary of an entry',
 breaks='a page that is cut short is read as far as it goes',
 edits=[('cpp/src/io/copc_reader.cpp', '    for (int i = 0; i < num_entries; i++)\n    {\n        Entry e', '    for (int i = 0; i < num_entries && in_stream_->peek() != EOF; i++)\n    {\n        Entry e')],
 demo='''int main()
{
    std::stringstream s;
    {
        CopcConfigWriter cfg(6);
        Writer w(s, cfg);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
        w.AddNode(VoxelKey(1, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 3));
        w.AddNode(VoxelKey(1, 1, 0, 0), some(*w.CopcConfig()->LasHeader(), 4));
        w.Close();
    }
    std::string x = s.str();
    for (size_t n = x.size() - 96; n < x.size(); n++)
    {
        {
            std::ofstream f("cut.copc.laz", std::ios::binary);
            f.write(x.data(), n);
        }
        size_t found = 3;
        try
        {
            FileReader r("cut.copc.laz");
            found = r.GetAllNodes().size();
        }
        catch (std::exception &)
        {
        }
        CHECK(found == 3);
    }
}
'''),
]
