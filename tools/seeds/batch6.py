SEEDS = [
dict(id='new-page-not-loaded', property='C02', needs='a lookup in the writer of an absent key below a page that was made by moving a node',
 breaks='a page made by moving a node to it does not count as loaded, so looking up a key that is not in it fails instead of finding no node',
 edits=[('cpp/src/io/copc_writer_public.cpp', '''        auto new_page = std::make_shared<Internal::PageInternal>(new_page_key);
        new_page->loaded = true;
        hierarchy_->seen_pages_[new_page_key] = new_page;''', '''        hierarchy_->seen_pages_[new_page_key] = std::make_shared<Internal::PageInternal>(new_page_key);''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(6);
    Writer w(s, cfg);
    VoxelKey a(0, 0, 0, 0), b(1, 0, 0, 1), c(2, 0, 0, 2);
    w.AddNode(a, some(*w.CopcConfig()->LasHeader(), 2));
    w.AddNode(b, some(*w.CopcConfig()->LasHeader(), 3));
    w.ChangeNodePage(b, b);
    CHECK(w.FindNode(b).IsValid());
    bool absent = false;
    CHECK(!throws([&] { absent = !w.FindNode(c).IsValid(); }));
    CHECK(absent);
    w.Close();
    std::stringstream in(s.str());
    Reader r(&in);
    CHECK(r.GetAllNodes().size() == 2);
}
'''),
dict(id='stats-must-follow-extents', property='C32', needs='a file whose extended statistics stand before the extents in the list of VLRs',
 breaks='the means and variances of a file are ignored or refused unless their VLR stands after the extents',
 edits=[('cpp/src/io/copc_reader.cpp', '''static_cast<uint16_t>(eb_vlr.items.size()), extended_offset != 0);''',
 '''static_cast<uint16_t>(eb_vlr.items.size()), extended_offset > offset);'''),
 ('cpp/src/io/copc_reader.cpp', '''        if (extended_offset != 0)
        {
            in_stream_->seekg(extended''', '''        if (extended_offset > offset)
        {
            in_stream_->seekg(extended''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(6, Vector3::DefaultScale(), Vector3::DefaultOffset(), "", las::EbVlr(0), true);
    cfg.CopcExtents()->Intensity()->mean = 5;
    cfg.CopcExtents()->Intensity()->var = 7;
    Writer w(s, cfg);
    w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
    w.Close();
    std::string f = s.str();
    // the two VLRs are of the same size and follow each other: exchange them
    size_t start = 375 + 54 + 160;
    size_t size = 54 + at<uint16_t>(f, start + 20);
    std::string a = f.substr(start, size), b = f.substr(start + size, size);
    CHECK(at<uint16_t>(a, 18) == 10000);
    CHECK(at<uint16_t>(b, 18) == 10001);
    for (bool exchanged : {false, true})
    {
        if (exchanged)
            f.replace(start, 2 * size, b + a);
        std::stringstream in(f);
        Reader r(&in);
        CHECK(r.CopcConfig().CopcExtents().HasExtendedStats());
        CHECK(r.CopcConfig().CopcExtents().Intensity()->mean == 5);
        CHECK(r.CopcConfig().CopcExtents().Intensity()->var == 7);
    }
}
'''),
dict(id='seek-only-when-elsewhere', property='C06', needs='a query that reads a page of the hierarchy between the compressed chunks of two nodes that follow each other in the file',
 breaks='the compressed chunk of a node is read from wherever the previous query left the input',
 edits=[('cpp/src/io/copc_reader.cpp', '''    in_stream_->seekg(node.offset);

    std::vector<char> out;
    out.resize(node.byte_size);
    in_stream_->read(out.data(), node.byte_size);
    CheckStream();
''', '''    if (next_chunk_ != node.offset) // nodes are mostly read in the order of the file
        in_stream_->seekg(node.offset);

    std::vector<char> out;
    out.resize(node.byte_size);
    in_stream_->read(out.data(), node.byte_size);
    CheckStream();
    next_chunk_ = node.offset + node.byte_size;
'''), ('cpp/include/copc-lib/io/copc_reader.hpp', '''    void InitCopcReader();
''', '''    uint64_t next_chunk_ = 0;
    void InitCopcReader();
''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(6);
    Writer w(s, cfg);
    VoxelKey a(0, 0, 0, 0), b(1, 0, 0, 1), c(1, 1, 0, 1);
    w.AddNode(a, some(*w.CopcConfig()->LasHeader(), 2));
    w.AddNode(b, some(*w.CopcConfig()->LasHeader(), 3));
    w.AddNode(c, some(*w.CopcConfig()->LasHeader(), 4), c);
    w.Close();
    std::string f = s.str();
    for (bool between : {false, true})
    {
        std::stringstream in(f);
        Reader r(&in);
        Node na = r.FindNode(a), nb = r.FindNode(b);
        CHECK(r.GetPointDataCompressed(na) == std::vector<char>(f.begin() + na.offset, f.begin() + na.offset + na.byte_size));
        if (between)
            CHECK(r.FindNode(c).IsValid());
        CHECK(r.GetPointDataCompressed(nb) == std::vector<char>(f.begin() + nb.offset, f.begin() + nb.offset + nb.byte_size));
    }
}
'''),
dict(id='compute-parent-at-depth', property='C02', needs='pages three or more levels apart whose common parent page is neither the root nor the direct parent',
 breaks='a page is hung below the wrong page when the nearest page above is skipped',
 edits=[('cpp/src/io/copc_writer_internal.cpp', '''            while (!hierarchy_->PageExists(parent_key))
            {
                parent_key = parent_key.GetParent();''', '''            while (!hierarchy_->PageExists(parent_key))
            {
                parent_key = parent_key.d % 2 ? parent_key.GetParent() : parent_key.GetParent().GetParent();
                if (!parent_key.IsValid())
                    parent_key = VoxelKey::RootKey();''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(6);
    Writer w(s, cfg);
    VoxelKey a(0, 0, 0, 0), b(1, 0, 0, 1), c(4, 0, 0, 8);
    w.AddNode(a, some(*w.CopcConfig()->LasHeader(), 2));
    w.AddNode(b, some(*w.CopcConfig()->LasHeader(), 3), b);
    w.AddNode(c, some(*w.CopcConfig()->LasHeader(), 4), c);
    w.Close();
    // the entry of c's page must be in b's page
    std::stringstream in(s.str());
    Reader r(&in);
    Node n = r.FindNode(b);
    CHECK(n.IsValid());
    CHECK(r.FindNode(c).IsValid());
    CHECK(r.GetAllChildrenOfPage(b).size() == 2);
    std::stringstream in2(s.str());
    Reader r2(&in2);
    CHECK(r2.FindNode(c).IsValid());
}
'''),
dict(id='conversion-keeps-flagged-wkt', property='C19', needs='a LAZ configuration made from a COPC configuration that was not read from a file, so that its header does not announce the WKT yet',
 breaks='the WKT of a COPC configuration is lost when it is made into a LAZ configuration before it was written',
 edits=[('cpp/src/las/laz_config.cpp', '''    wkt_ = copc_config.Wkt();''', '''    if (copc_config.LasHeader().global_encoding & (1 << 4)) // the header says that there is one
        wkt_ = copc_config.Wkt();''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(6, Vector3::DefaultScale(), Vector3::DefaultOffset(), "some WKT");
    Writer w(s, cfg);
    w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
    w.Close();
    Reader r(&s);
    const CopcConfig read = r.CopcConfig();
    CHECK(las::LazConfig(read).Wkt() == "some WKT");
    const CopcConfig &made = cfg;
    CHECK(las::LazConfig(made).Wkt() == "some WKT");
    std::stringstream out;
    las::LazConfigWriter lc{las::LazConfig(made)};
    laz::LazWriter lw(out, lc);
    lw.WritePoints(some(*lw.LazConfig()->LasHeader(), 2));
    lw.Close();
    laz::LazReader lr(&out);
    CHECK(lr.LazConfig().Wkt() == "some WKT");
}
'''),
]
