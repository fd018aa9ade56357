#ifndef LATTICE_DUMP_HPP
#define LATTICE_DUMP_HPP
#include <set>
#include <sstream>
#include <string>
#include "lattice.hpp"
namespace ld {
inline std::set<std::string> tagSet(Lattice& lat, const LayerTagCollection& c) {
    std::list<std::string> l = lat.getLayerTagManager().getTagNames(c);
    return std::set<std::string>(l.begin(), l.end());
}
inline std::string edgeHead(Lattice& lat, Lattice::EdgeDescriptor d) {
    std::ostringstream o;
    AnnotationItem i = lat.getEdgeAnnotationItem(d);
    o << lat.getEdgeSource(d) << ">" << lat.getEdgeTarget(d) << " " << i.getCategory() << "|" << i.getText();
    return o.str();
}
inline std::string edgeFull(Lattice& lat, Lattice::EdgeDescriptor d) {
    std::ostringstream o;
    o << edgeHead(lat, d) << " {";
    for (auto& t : tagSet(lat, lat.getEdgeLayerTags(d))) o << t << ",";
    o << "} " << lat.getEdgeScore(d) << " [";
    for (auto& p : lat.getEdgePartitions(d)) {
        o << "(";
        for (auto& t : tagSet(lat, p.getTagList())) o << t << ",";
        o << ":";
        Lattice::Partition::Iterator pi(lat, p);
        while (pi.hasNext()) o << edgeHead(lat, pi.next()) << ";";
        o << p.getScore() << "/" << p.getRuleId() << ")";
    }
    o << "]";
    return o.str();
}
}
#endif
