SEEDS = [
dict(id='compress-shared-buffer', property='C31', needs='two threads compressing at the same time',
 breaks='the record buffer of the compressor is shared by all threads',
 edits=[('cpp/include/copc-lib/laz/compressor.hpp', '''            std::vector<char> buff =
                std::vector<char>(in.begin() + (i * point_size), in.begin() + ((i + 1) * point_size));
''', '''            // reuse one buffer instead of allocating one for each point
            static std::vector<char> buff;
            buff.assign(in.begin() + (i * point_size), in.begin() + ((i + 1) * point_size));
''')],
 demo='''#include <thread>
int main()
{
    auto job = [](char fill, bool *ok)
    {
        std::vector<char> in(30 * 20000, fill);
        for (int i = 0; i < 40 && *ok; i++)
        {
            auto z = laz::Compressor::CompressBytes(in, 6, 0);
            *ok = laz::Decompressor::DecompressBytes(z, 6, 0, 20000) == in;
        }
    };
    bool a = true, b = true;
    std::thread t(job, 'a', &a), u(job, 'b', &b);
    t.join();
    u.join();
    CHECK(a && b);
}
'''),
dict(id='lookup-leaves-entry', property='C04', needs='looking up an absent key on a writer, then adding a node or changing the page of that key',
 breaks='a failed lookup leaves an empty entry, so the writer refuses the key later as already added',
 edits=[('cpp/src/io/copc_base_io.cpp', '''    auto parents_list = key.GetParents(true);

    for (;;)
    {
        // Check if the entry has already been loaded
        if (hierarchy_->loaded_nodes_.find(key) != hierarchy_->loaded_nodes_.end())
        {
            return *hierarchy_->loaded_nodes_[key];
        }
''', '''    const auto parents_list = key.GetParents(true);

    for (;;)
    {
        // Check if the entry has already been loaded
        if (const auto &node = hierarchy_->loaded_nodes_[key])
        {
            return *node;
        }
''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(6);
    Writer w(s, cfg);
    VoxelKey k(1, 1, 0, 0);
    auto h = *w.CopcConfig()->LasHeader();
    CHECK(!w.FindNode(k).IsValid());
    CHECK(!throws([&] { w.AddNode(k, some(h, 2)); }));
    w.Close();
    Reader r(&s);
    CHECK(r.FindNode(k).point_count == 2);
}
'''),
dict(id='identifier-terminated', property='C17', needs='a system identifier of the full 32 bytes',
 breaks='the last byte of a full-length system identifier is lost in the file',
 edits=[('cpp/src/las/header.cpp', '''    std::strncpy(h.system_identifier, system_identifier_.c_str(), 32);''', '''    std::strncpy(h.system_identifier, system_identifier_.c_str(), sizeof(h.system_identifier) - 1);''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(6);
    std::string id(32, 'x');
    cfg.LasHeader()->SystemIdentifier(id);
    Writer w(s, cfg);
    w.Close();
    Reader r(&s);
    CHECK(r.CopcConfig().LasHeader().SystemIdentifier() == id);
}
'''),
dict(id='point-list-first-only', property='C16', needs='a list of points whose first has the right format and a later one has not',
 breaks='only the first point of a list is checked before the list is added',
 edits=[('cpp/src/las/points.cpp', '''    for (const auto &point : points)
    {
        if (point == nullptr || point->PointFormatId() != point_format_id_ ||
            point->PointRecordLength() != point_record_length_)
            throw std::runtime_error("New points must be of same format and byte_size.");
    }
''', '''    // Lists come from one source, so their points are alike
    if (!points.empty() && (points[0] == nullptr || points[0]->PointFormatId() != point_format_id_ ||
                            points[0]->PointRecordLength() != point_record_length_))
        throw std::runtime_error("New points must be of same format and byte_size.");
''')],
 demo='''int main()
{
    Points p(7);
    auto a = std::make_shared<las::Point>(7), b = std::make_shared<las::Point>(6);
    CHECK(throws([&] { p.AddPoints(std::vector<std::shared_ptr<las::Point>>{a, b}); }));
    CHECK(p.Size() == 0);
}
'''),
dict(id='crosses-contains', property='C12', needs='a box larger than the cell that contains it, or one inside the cell',
 breaks='a cell crosses a box it lies in, and not one it contains',
 edits=[('cpp/src/hierarchy/key.cpp', '''    return Box(*this, header).Intersects(box) && !Box(*this, header).Within(box);''', '''    const Box cell(*this, header);
    return cell.Intersects(box) && !cell.Contains(box);''')],
 demo='''int main()
{
    las::LasHeader h(6, 30, {1, 1, 1}, {0, 0, 0}, true);
    h.max = {8, 8, 8};
    VoxelKey k(1, 0, 0, 0);
    CHECK(!k.Crosses(h, Box(-1, -1, -1, 5, 5, 5)));
    CHECK(k.Crosses(h, Box(1, 1, 1, 2, 2, 2)));
    CHECK(k.Crosses(h, Box(1, 1, 1, 6, 6, 6)));
}
'''),
dict(id='decompress-leaves-eof', property='C21', needs='decompressing from a stream the chunk is at the end of, then using the stream again',
 breaks='the stream is left at end of file so it can not be used any more',
 edits=[('cpp/include/copc-lib/laz/decompressor.hpp', '''        // clear the EOF flag, since lazperf may read too large of a buffer
        in_stream.clear();
''', '''        // lazperf may read too large of a buffer
        if (in_stream.bad())
            in_stream.clear();
''')],
 demo='''int main()
{
    std::vector<char> in(60, 1);
    auto z = laz::Compressor::CompressBytes(in, 6, 0);
    std::stringstream s(std::string(z.begin(), z.end()));
    CHECK(laz::Decompressor::DecompressBytes(s, 6, 0, 2) == in);
    CHECK(s.good());
    s.seekg(0);
    CHECK(laz::Decompressor::DecompressBytes(s, 6, 0, 2) == in);
}
'''),
dict(id='laz-batch-length-unchecked', property='C20', needs='a batch of the right format with other extra bytes',
 breaks='batches of another record length are written as if they had the file\'s',
 edits=[('cpp/src/io/laz_writer.cpp', '''    if (points.PointFormatId() != config_->LasHeader().PointFormatId() ||
        points.PointRecordLength() != config_->LasHeader().PointRecordLength())
        throw''', '''    if (points.PointFormatId() != config_->LasHeader().PointFormatId())
        throw''')],
 demo='''int main()
{
    std::stringstream s;
    las::EbVlr eb(2);
    laz::LazWriter w(s, las::LazConfigWriter(6, {1, 1, 1}, {0, 0, 0}, "", eb));
    Points p(6, 0);
    for (int i = 0; i < 16; i++)
        p.AddPoint(p.CreatePoint());
    CHECK(throws([&] { w.WritePoints(p); }));
}
'''),
dict(id='header-before-hierarchy', property='C22', needs='a crash while closing, after the header was first written and before it is completed',
 breaks='a complete looking header is in place before the hierarchy can be found, so an interrupted file opens as an empty one',
 edits=[('cpp/src/io/copc_writer_internal.cpp', '''    // Compute the hierarchy between existing pages
    ComputePageHierarchy();
    // Page writing''', '''    ComputePageHierarchy();
    // The header's own fields are final from here on, the offsets in it are corrected below
    WriteHeader();
    // Page writing''')],
 demo='''struct Log : std::stringbuf
{
    std::vector<std::string> images;
    std::streamsize xsputn(const char *p, std::streamsize n) override
    {
        auto r = std::stringbuf::xsputn(p, n);
        images.push_back(str());
        return r;
    }
};
int main()
{
    Log log;
    std::ostream o(&log);
    CopcConfigWriter cfg(6);
    {
        Writer w(o, cfg);
        w.AddNode(VoxelKey::RootKey(), some(*w.CopcConfig()->LasHeader(), 3));
        w.Close();
    }
    int opened = 0;
    for (auto &i : log.images)
    {
        std::stringstream s(i);
        try
        {
            Reader r(&s);
            CHECK(r.GetAllPoints().Size() == 3);
            opened++;
        }
        catch (std::runtime_error &)
        {
        }
    }
    CHECK(opened > 0);
}
'''),
dict(id='bulk-setter-longer', property='C26', needs='a list of blue values longer than the points',
 breaks='blue accepts a list that is too long',
 edits=[('cpp/include/copc-lib/las/points.hpp', '''        if (in.size() != Size())
            throw std::runtime_error("Blue''', '''        if (in.size() < Size())
            throw std::runtime_error("Blue''')],
 demo='''int main()
{
    Points p(7);
    p.AddPoint(p.CreatePoint());
    CHECK(throws([&] { p.Blue(std::vector<uint16_t>{1, 2}); }));
    CHECK(p.Blue()[0] == 0);
}
'''),
dict(id='vlr-user-prefix', property='C32', needs='a foreign record whose user id starts like a known one, with the same record id, before the real one',
 breaks='the foreign record is taken for the known one',
 edits=[('cpp/src/io/base_reader.cpp', '''        if (vlr_header.user_id == user_id && vlr_header.record_id == record_id)
            return offset;''', '''        // user ids may be padded
        if (vlr_header.user_id.compare(0, user_id.size(), user_id) == 0 && vlr_header.record_id == record_id)
            return offset;''')],
 demo='''// moves a foreign VLR in front of the extents
int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(6, Vector3::DefaultScale(), Vector3::DefaultOffset(), "", las::EbVlr(0), false);
    *cfg.CopcExtents()->Intensity() = CopcExtent(3, 7);
    {
        Writer w(s, cfg);
        w.Close();
    }
    std::string f = s.str();
    size_t at = 375 + 54 + 160; // the extents VLR
    CHECK(f.substr(at + 2, 4) == "copc");
    std::string foreign(54 + 14 * 16, 0);
    foreign.replace(2, 10, "copc_tools");
    uint16_t id = 10000, len = 14 * 16;
    memcpy(&foreign[18], &id, 2);
    memcpy(&foreign[20], &len, 2);
    auto add = [&](size_t o, int size)
    {
        if (size == 4)
        {
            uint32_t v = at_<uint32_t>(f, o) + foreign.size();
            memcpy(&f[o], &v, 4);
        }
        else
        {
            uint64_t v = at_<uint64_t>(f, o) + foreign.size();
            memcpy(&f[o], &v, 8);
        }
    };
    uint32_t n = at_<uint32_t>(f, 100) + 1;
    add(at_<uint32_t>(f, 96), 8); // chunk table
    memcpy(&f[100], &n, 4);
    add(96, 4);
    add(235, 8);
    add(375 + 54 + 40, 8);
    f.insert(at, foreign);
    std::stringstream g(f);
    Reader r(&g);
    CHECK(r.CopcConfig().CopcExtents().Intensity()->maximum == 7);
}
'''.replace('at_<', 'at<').replace('size_t at = ', 'size_t pos = ').replace('f.substr(at + 2', 'f.substr(pos + 2').replace('f.insert(at,', 'f.insert(pos,')),
dict(id='parent-float', property='C11', needs='a key with a coordinate of more than 24 bits',
 breaks='the ancestor at a depth is computed in single precision, so keys with large coordinates get one of another branch',
 edits=[('cpp/src/hierarchy/key.cpp', '''    int reduction_factor = (int)std::pow(2, d - depth);
    return {depth, x / reduction_factor, y / reduction_factor, z / reduction_factor};''', '''    const auto up = [levels = d - depth](int32_t v) { return static_cast<int32_t>(std::ldexp(static_cast<float>(v), -levels)); };
    return {depth, up(x), up(y), up(z)};''')],
 demo='''int main()
{
    CHECK(VoxelKey(4, 5, 6, 7).GetParentAtDepth(3) == VoxelKey(3, 2, 3, 3));
    CHECK(VoxelKey(27, (1 << 27) - 1, 0, 5).GetParentAtDepth(26) == VoxelKey(26, (1 << 26) - 1, 0, 2));
}
'''),
dict(id='record-fields-swapped', property='C15', needs='a look at the record itself, or a file of another writer: pack and unpack agree with each other',
 breaks='classification and user data are exchanged in the record, by pack and unpack alike',
 edits=[('cpp/src/las/point.cpp', '''    p->classification_ = unpack<uint8_t>(in_stream);
    p->user_data_ = unpack<uint8_t>(in_stream);
''', '''    p->user_data_ = unpack<uint8_t>(in_stream);
    p->classification_ = unpack<uint8_t>(in_stream);
'''), ('cpp/src/las/point.cpp', '''    pack(classification_, out_stream);
    pack(user_data_, out_stream);
''', '''    pack(user_data_, out_stream);
    pack(classification_, out_stream);
''')],
 demo='''int main()
{
    las::LasHeader h(6, 30, {1, 1, 1}, {0, 0, 0}, true);
    Points p(6);
    auto q = p.CreatePoint();
    q->Classification(2);
    q->UserData(9);
    p.AddPoint(q);
    auto b = p.Pack(h);
    CHECK(b[16] == 2 && b[17] == 9);
}
'''),
dict(id='equality-skips-blue', property='C37', needs='points that differ in blue only',
 breaks='points which differ in blue only compare equal',
 edits=[('cpp/src/las/point.cpp', '''    if (has_rgb_ && (rgb_[0] != other.Red() || rgb_[1] != other.Green() || rgb_[2] != other.Blue()))''',
 '''    if (has_rgb_ && !std::equal(rgb_, rgb_ + 2, other.rgb_))''')],
 demo='''int main()
{
    las::Point a(7), b(7);
    b.Blue(1);
    CHECK(a != b && !(a == b));
}
'''),
dict(id='validate-root-unchecked', property='C10', needs='a point outside of the header bounds but inside a cell that contains them',
 breaks='points of nodes whose cell contains the header bounds are not compared with them',
 edits=[('cpp/src/io/copc_reader.cpp', '''            // If node not within las header bounds then check individual points
            if (!Box(node.key, header).Within(header.Bounds()))''', '''            // If node reaches over a side of the las header bounds then check individual points
            if (!Box(node.key, header).Within(header.Bounds()) && !Box(node.key, header).Contains(header.Bounds()))''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(6);
    cfg.LasHeader()->min = {0, 0, 0};
    cfg.LasHeader()->max = {10, 2, 2};
    {
        Writer w(s, cfg);
        w.AddNode(VoxelKey::RootKey(), some(*w.CopcConfig()->LasHeader(), 2, 5));
        w.Close();
    }
    Reader r(&s);
    CHECK(!r.ValidateSpatialBounds());
}
'''),
dict(id='override-extents-count', property='C18', needs='overriding the extra bytes with another number of fields',
 breaks='the extents keep the number of extra bytes of the given configuration',
 edits=[('cpp/src/io/copc_writer_public.cpp', '''                                      new_extra_bytes_vlr.items.size(), new_has_extended_stats);''', '''                                      copc_config_writer.ExtraBytesVlr().items.size(), new_has_extended_stats);''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(6);
    las::EbVlr eb(2);
    Writer w(s, cfg, {}, {}, {}, {}, eb);
    CHECK(w.CopcConfig()->CopcExtents()->ExtraBytes().size() == 2);
    w.Close();
    Reader r(&s);
    CHECK(r.CopcConfig().CopcExtents().ExtraBytes().size() == 2);
}
'''),
dict(id='page-offset-32-bit', property='C38', needs='a hierarchy page beyond 4 GiB',
 breaks='the offset of a page is cut to 32 bits',
 edits=[('cpp/src/io/copc_writer_internal.cpp', '''    page->offset = offset;''', '''    page->offset = static_cast<uint32_t>(offset);'''),
('cpp/src/io/copc_writer_internal.cpp', '''root_hier_offset = offset;''', '''root_hier_offset = page->offset;''')],
 demo='''// keeps only what lies below or above the gap
struct Sparse : std::streambuf
{
    std::string lo, hi;
    static const int64_t GAP = int64_t(5) << 30;
    int64_t pos = 0;
    int64_t size() { return hi.empty() ? (int64_t)lo.size() : GAP + (int64_t)hi.size(); }
    std::streamsize xsputn(const char *p, std::streamsize n) override
    {
        auto &s = pos >= GAP ? hi : lo;
        size_t o = pos >= GAP ? pos - GAP : pos;
        if (s.size() < o + n)
            s.resize(o + n);
        s.replace(o, n, p, n);
        pos += n;
        return n;
    }
    int overflow(int c) override
    {
        char x = c;
        xsputn(&x, 1);
        return c;
    }
    std::streampos seekoff(std::streamoff o, std::ios::seekdir d, std::ios::openmode) override
    {
        return pos = o + (d == std::ios::beg ? 0 : d == std::ios::cur ? pos : size());
    }
    std::streampos seekpos(std::streampos p, std::ios::openmode) override { return pos = p; }
};
int main()
{
    Sparse b;
    std::ostream o(&b);
    CopcConfigWriter cfg(6);
    Writer w(o, cfg);
    auto h = *w.CopcConfig()->LasHeader();
    w.AddNode(VoxelKey::RootKey(), some(h, 2));
    o.seekp(Sparse::GAP);
    CHECK(w.AddNode(VoxelKey(1, 0, 0, 0), some(h, 3)).offset == (uint64_t)Sparse::GAP);
    w.Close();
    CHECK(at<uint64_t>(b.lo, 375 + 54 + 40) > (uint64_t)Sparse::GAP);
}
'''),
dict(id='page-removed-early', property='C02', needs='moving one of two nodes of a page elsewhere',
 breaks='a page is dropped while it still holds a node',
 edits=[('cpp/src/io/copc_writer_public.cpp', '''    // Remove node from old page
    hierarchy_->seen_pages_[node->page_key]->nodes.erase(node_key);

    // If old page has no nodes left then remove it, unless it is root page
    if (node->page_key != VoxelKey::RootKey() && hierarchy_->seen_pages_[node->page_key]->nodes.empty())
        hierarchy_->seen_pages_.erase(node->page_key);
''', '''    // Remove node from old page, and the page itself if this was its last node, unless it is root page
    auto &old_nodes = hierarchy_->seen_pages_[node->page_key]->nodes;
    old_nodes.erase(node_key);
    if (node->page_key != VoxelKey::RootKey() && old_nodes.size() <= 1)
        hierarchy_->seen_pages_.erase(node->page_key);
''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(6);
    VoxelKey p(1, 0, 0, 0), a(2, 0, 0, 0), b(2, 1, 0, 0);
    {
        Writer w(s, cfg);
        auto h = *w.CopcConfig()->LasHeader();
        w.AddNode(a, some(h, 1), p);
        w.AddNode(b, some(h, 2), p);
        w.ChangeNodePage(a, VoxelKey::RootKey());
        w.Close();
    }
    Reader r(&s);
    CHECK(r.GetAllNodes().size() == 2);
    CHECK(r.FindNode(b).page_key == p);
}
'''),
dict(id='stats-swapped', property='C25', needs='a look at the file itself: writer and reader agree with each other',
 breaks='mean and variance are exchanged in the file, by writer and reader alike',
 edits=[('cpp/src/copc/extents.cpp', '''        vlr.items.emplace_back(extent->mean, extent->var); // Add mean/var instead of min/max''', '''        vlr.items.emplace_back(extent->var, extent->mean); // Add mean/var instead of min/max'''),
 ('cpp/src/copc/extents.cpp', '''        extents_[i]->mean = vlr.items[i].minimum;
        extents_[i]->var = vlr.items[i].maximum;''', '''        extents_[i]->mean = vlr.items[i].maximum;
        extents_[i]->var = vlr.items[i].minimum;''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(6, Vector3::DefaultScale(), Vector3::DefaultOffset(), "", las::EbVlr(0), true);
    *cfg.CopcExtents()->X() = CopcExtent(0, 1, 0.25, 0.75);
    Writer w(s, cfg);
    w.Close();
    size_t x = 375 + 54 + 160 + 54 + 14 * 16 + 54;
    CHECK(at<double>(s.str(), x) == 0.25 && at<double>(s.str(), x + 8) == 0.75);
}
'''),
]
