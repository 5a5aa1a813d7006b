SEEDS = [
dict(id='page-tree-skips-levels', property='C02', needs='three page levels with a gap: a page whose direct parent key has no page but whose grandparent has',
 breaks='the page is linked from the root page instead of from its nearest ancestor page',
 edits=[('cpp/src/io/copc_writer_internal.cpp', '''                parent_key = parent_key.GetParent();
                if (!parent_key.IsValid())
                    throw''', '''                // no page there: fall back to the top of the tree
                parent_key = VoxelKey::RootKey();
                if (!hierarchy_->PageExists(parent_key))
                    throw''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(7);
    VoxelKey p1(1, 0, 0, 0), p3(3, 0, 0, 0);
    {
        Writer w(s, cfg);
        auto h = *w.CopcConfig()->LasHeader();
        w.AddNode(VoxelKey::RootKey(), some(h, 1));
        w.AddNode(p1, some(h, 2), p1);
        w.AddNode(p3, some(h, 3), p3);
        w.Close();
    }
    Reader r(&s);
    auto below = r.GetAllChildrenOfPage(p1);
    std::vector<VoxelKey> k;
    for (auto &n : below)
        k.push_back(n.key);
    CHECK(std::find(k.begin(), k.end(), p3) != k.end());
    CHECK(k.size() == 2);
}
'''),
dict(id='page-list-short-cut', property='C06', needs='a query that loads only part of the hierarchy before GetPageList',
 breaks='GetPageList skips loading when any page beyond the root was seen, so it misses pages nested in unloaded pages',
 edits=[('cpp/src/io/copc_reader.cpp', '''    // Load all nodes and pages in hierarchy
    GetAllNodes();
''', '''    // Load all nodes and pages in hierarchy, unless this was done before
    if (hierarchy_->seen_pages_.size() < 2)
        GetAllNodes();
''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(7);
    VoxelKey p1(1, 0, 0, 0), p2(2, 0, 0, 0);
    {
        Writer w(s, cfg);
        auto h = *w.CopcConfig()->LasHeader();
        w.AddNode(VoxelKey::RootKey(), some(h, 1));
        w.AddNode(p1, some(h, 2), p1);
        w.AddNode(p2, some(h, 3), p2);
        w.Close();
    }
    Reader a(&s);
    CHECK(a.GetPageList().size() == 3);
    Reader b(&s);
    b.FindNode(VoxelKey::RootKey());
    CHECK(b.GetPageList().size() == 3);
}
'''),
dict(id='box-points-ignore-resolution', property='C09', needs='a points-within-box query with a resolution limit and a node deeper than it that lies fully inside the box',
 breaks='points of nodes fully inside the box are returned whatever the requested resolution',
 edits=[('cpp/src/io/copc_reader.cpp', '''        if (node.key.d <= max_depth)
        {
            // If node fits in Box
            if (node.key.Within(config_.LasHeader(), box))
            {
                // If the node is within the box add all points
                out.AddPoints(GetPoints(node));
            }
            else if (node.key.Intersects(config_.LasHeader(), box))
            {
                // If the node only crosses the box then get subset of points within box
                auto points = GetPoints(node);
                out.AddPoints(points.GetWithin(box));
            }
        }''', '''        // If node fits in Box
        if (node.key.Within(config_.LasHeader(), box))
        {
            // If the node is within the box add all points
            out.AddPoints(GetPoints(node));
        }
        else if (node.key.d <= max_depth && node.key.Intersects(config_.LasHeader(), box))
        {
            // If the node only crosses the box then get subset of points within box
            auto points = GetPoints(node);
            out.AddPoints(points.GetWithin(box));
        }''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(7);
    {
        Writer w(s, cfg);
        auto h = w.CopcConfig()->LasHeader();
        h->min = Vector3(0, 0, 0);
        h->max = Vector3(16, 16, 16);
        w.CopcConfig()->CopcInfo()->spacing = 4;
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*h, 1));
        w.AddNode(VoxelKey(1, 0, 0, 0), some(*h, 2));
        w.AddNode(VoxelKey(2, 0, 0, 0), some(*h, 3));
        w.Close();
    }
    Reader r(&s);
    Box b(-1, -1, -1, 20, 20, 20);
    CHECK(r.GetPointsWithinBox(b).Size() == 6);
    CHECK(r.GetPointsWithinBox(b, 4).Size() == 1);
    CHECK(r.GetPointsWithinBox(b, 2).Size() == 3);
}
'''),
dict(id='validate-verbose-forgets', property='C10', needs='verbose validation of a file whose only fault is a point outside its own node',
 breaks='verbose validation reports the point but still answers that the file is valid',
 edits=[('cpp/src/io/copc_reader.cpp', '''                if (!point->Within(box))
                {
                    is_valid = false;
                    if (!verbose)
                        return false;
''', '''                if (!point->Within(box))
                {
                    if (!verbose)
                        return false;
''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(7);
    {
        Writer w(s, cfg);
        auto h = w.CopcConfig()->LasHeader();
        h->min = Vector3(0, 0, 0);
        h->max = Vector3(16, 16, 16);
        w.AddNode(VoxelKey(1, 0, 0, 0), some(*h, 1, 12));
        w.Close();
    }
    Reader r(&s);
    CHECK(!r.ValidateSpatialBounds(false));
    CHECK(!r.ValidateSpatialBounds(true));
}
'''),
dict(id='round-half-up', property='C13', needs='a negative stored coordinate (value below the offset) that is not on the grid',
 breaks='negative coordinates are truncated after adding a half, so they move by up to a whole step and drift',
 edits=[('cpp/include/copc-lib/las/utils.hpp', '    double val = std::round((value - offset) / scale);', '    double val = std::trunc((value - offset) / scale + 0.5);')],
 demo='''int main()
{
    auto q = [](double v) { return las::RemoveScale<int32_t>(v, 0.01, 0); };
    CHECK(q(1.234) == 123 && q(1.238) == 124);
    CHECK(q(-1.234) == -123);
    CHECK(q(-1.238) == -124);
    CHECK(q(-1.24) == -124);
}
'''),
dict(id='channel-clears-direction', property='C14', needs='setting the scanner channel of a point whose scan direction flag is set',
 breaks='the scanner channel setter clears the neighbouring scan direction flag',
 edits=[('cpp/include/copc-lib/las/point.hpp', 'flags_ = (flags_ & 0xCF) | (scanner_channel << 4);', 'flags_ = (flags_ & 0x8F) | (scanner_channel << 4);')],
 demo='''int main()
{
    las::Point p(6);
    p.ScanDirectionFlag(true);
    p.EdgeOfFlightLineFlag(true);
    p.ScannerChannel(2);
    CHECK(p.ScannerChannel() == 2 && p.EdgeOfFlightLineFlag() && p.ScanDirectionFlag());
}
'''),
dict(id='wkt-override-empty', property='C18', needs='overriding the WKT of an existing configuration by an empty text',
 breaks='naming an empty WKT keeps the old one instead of removing it',
 edits=[('cpp/src/io/copc_writer_public.cpp', '''        if (wkt)
            new_wkt = *wkt;''', '''        if (wkt && !wkt->empty())
            new_wkt = *wkt;''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(7, {0.01, 0.01, 0.01}, {0, 0, 0}, "OLD");
    {
        Writer w(s, cfg, {}, {}, {}, std::string());
        w.AddNode(VoxelKey::RootKey(), some(*w.CopcConfig()->LasHeader(), 1));
        w.Close();
    }
    Reader r(&s);
    CHECK(r.CopcConfig().Wkt().empty());
}
'''),
dict(id='extents-gps-dropped', property='C25', needs='writing with an override that rebuilds the extents of a configuration whose GPS time extent was set',
 breaks='the GPS time extent is replaced by the default when extents are converted',
 edits=[('cpp/src/copc/extents.cpp', 'for (int i{0}; i <= 13; i++)', 'for (int i{0}; i < 13; i++)')],
 demo='''int main()
{
    CopcExtents a(7, 0);
    for (int i = 0; i < 17; i++)
        a.Extents()[i]->maximum = 100 + i;
    CopcExtents b(a, 8, 0, true);
    for (int i = 0; i < 17; i++)
        CHECK(b.Extents()[i]->maximum == 100 + i);
}
'''),
dict(id='version-check-and', property='C33', needs='a file whose header has version 1.3 or 2.4',
 breaks='only files with both a wrong major and a wrong minor version are refused',
 edits=[('cpp/src/las/header.cpp', 'header.version.major != 1 || header.version.minor != 4', 'header.version.major != 1 && header.version.minor != 4')],
 demo='''int main()
{
    las::LasHeader h(7, 36, Vector3(1, 1, 1), Vector3(0, 0, 0), false);
    auto l = h.ToLazPerf(500, 0, 0, 0, false, false);
    l.point_format_id &= 0x3f;
    las::LasHeader::FromLazPerf(l);
    l.version.minor = 3;
    CHECK(throws([&] { las::LasHeader::FromLazPerf(l); }));
    l.version.minor = 4;
    l.version.major = 2;
    CHECK(throws([&] { las::LasHeader::FromLazPerf(l); }));
}
'''),
dict(id='empty-node-invalid', property='C32', needs='a COPC file with an empty node (no points, no bytes), as other software writes for inner nodes',
 breaks='entries without bytes are called invalid, so files with empty inner nodes cannot be listed',
 edits=[('cpp/include/copc-lib/hierarchy/entry.hpp', 'return offset >= 0 && byte_size >= 0 && key.IsValid();', 'return offset > 0 && byte_size > 0 && key.IsValid();')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(7);
    {
        Writer w(s, cfg);
        w.AddNode(VoxelKey::RootKey(), some(*w.CopcConfig()->LasHeader(), 1));
        w.Close();
    }
    // empty the only entry of the only page
    std::string f = s.str();
    auto off = at<uint64_t>(f, 375 + 54 + 40);
    for (int i = 16; i < 32; i++)
        f[off + i] = 0;
    std::istringstream in(f);
    Reader r(&in);
    auto n = r.GetAllNodes();
    CHECK(n.size() == 1 && n[0].point_count == 0);
}
'''),
dict(id='rejected-add-makes-page', property='C04', needs='a rejected AddNode whose page does not contain the key, followed by closing the writer',
 breaks='the page of a rejected node stays in the hierarchy',
 edits=[('cpp/src/io/copc_writer_public.cpp', '''    if (!key.ChildOf(page_key))
        throw std::runtime_error("Target key " + key.ToString() + " is not a child of page node " + key.ToString());

    Entry e''', '''    // If page doesn't exist then create it
    if (!PageExists(page_key))
    {
        auto new_page = std::make_shared<Internal::PageInternal>(page_key);
        new_page->loaded = true;
        hierarchy_->seen_pages_[page_key] = new_page;
    }

    if (!key.ChildOf(page_key))
        throw std::runtime_error("Target key " + key.ToString() + " is not a child of page node " + key.ToString());

    Entry e'''), ('cpp/src/io/copc_writer_public.cpp', '''    hierarchy_->loaded_nodes_[key] = node;
    // If page doesn't exist then create it
    if (!PageExists(page_key))
    {
        auto new_page = std::make_shared<Internal::PageInternal>(page_key);
        new_page->loaded = true;
        hierarchy_->seen_pages_[page_key] = new_page;
    }
''', '''    hierarchy_->loaded_nodes_[key] = node;
''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(7);
    {
        Writer w(s, cfg);
        auto h = *w.CopcConfig()->LasHeader();
        w.AddNode(VoxelKey::RootKey(), some(h, 1));
        CHECK(throws([&] { w.AddNode(VoxelKey(2, 3, 3, 3), some(h, 1), VoxelKey(1, 0, 0, 0)); }));
        w.Close();
    }
    Reader r(&s);
    CHECK(r.GetPageList().size() == 1);
}
'''),
dict(id='legacy-count-overflow', property='C03', needs='a file with more than 2^32 points',
 breaks='the legacy point count holds the low bits of a count that does not fit instead of zero',
 edits=[('cpp/src/las/header.cpp', '''    if (point_count > (std::numeric_limits<uint32_t>::max)())
        h.point_count = 0;
    else
        h.point_count''', '''    if (static_cast<int64_t>(point_count) < 0)
        h.point_count = 0;
    else
        h.point_count''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(7);
    std::vector<char> one;
    {
        Writer w(s, cfg);
        auto h = *w.CopcConfig()->LasHeader();
        auto raw = some(h, 1).Pack(h);
        one = laz::Compressor::CompressBytes(raw, h);
        for (int i = 0; i < 3; i++)
            w.AddNodeCompressed(VoxelKey(i, 0, 0, 0), one, 0x7fffffff);
        w.Close();
    }
    CHECK(at<uint64_t>(s.str(), 247) == 3ull * 0x7fffffff);
    CHECK(at<uint32_t>(s.str(), 107) == 0);
}
'''),
dict(id='resolution-strict', property='C08', needs='a requested resolution exactly equal to that of a depth',
 breaks='a depth whose resolution equals the requested one is not accepted, one depth too many is returned',
 edits=[('cpp/src/io/copc_reader.cpp', '''        if (current_resolution <= resolution)''', '''        if (current_resolution < resolution)''')],
 demo='''int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(7);
    {
        Writer w(s, cfg);
        auto h = w.CopcConfig()->LasHeader();
        w.CopcConfig()->CopcInfo()->spacing = 4;
        for (int d = 0; d < 4; d++)
            w.AddNode(VoxelKey(d, 0, 0, 0), some(*h, 1));
        w.Close();
    }
    Reader r(&s);
    CHECK(r.GetDepthAtResolution(2) == 1);
    CHECK(r.GetDepthAtResolution(3) == 1);
    CHECK(r.GetDepthAtResolution(1) == 2);
}
'''),
]
