// vfpt.Node: reports where it has been placed.
#include "vfcommon.h"

namespace VFPT {
using namespace VF;

// connected ports of the component being built and its parts
thread_local int ports;

class Sub : public SST::SubComponent
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT_API(VFPT::Sub)
    SST_ELI_REGISTER_SUBCOMPONENT(Sub, "vfpt", "Sub", SST_ELI_ELEMENT_VERSION(1, 0, 0), "part of a node", VFPT::Sub)
    SST_ELI_DOCUMENT_PORTS({ "p%d", "ports", {} })
    SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({ "s", "", "VFPT::Sub" })
    Sub(ComponentId_t id, Params&) : SubComponent(id)
    {
        for ( int i = 0; isPortConnected("p" + std::to_string(i)); ++i, ++ports )
            configureLink("p" + std::to_string(i), new Event::Handler<Sub, &Sub::got>(this));
        std::vector<Sub*> v;
        if ( getSubComponentSlotInfo("s") ) getSubComponentSlotInfo("s")->createAll<Sub>(v, ComponentInfo::SHARE_NONE);
    }
    Sub() = default;
    void got(Event* e) { delete e; }
    void serialize_order(SST::Core::Serialization::serializer& ser) override { SubComponent::serialize_order(ser); }
    ImplementSerializable(VFPT::Sub);
};

class Node : public SST::Component
{
public:
    SST_ELI_REGISTER_COMPONENT(Node, "vfpt", "Node", SST_ELI_ELEMENT_VERSION(1, 0, 0), "placement", COMPONENT_CATEGORY_UNCATEGORIZED)
    SST_ELI_DOCUMENT_PORTS({ "p%d", "ports", {} })
    SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({ "s", "", "VFPT::Sub" })
    Node(ComponentId_t id, Params&) : Component(id)
    {
        ports = 0;
        for ( int i = 0; isPortConnected("p" + std::to_string(i)); ++i, ++ports )
            configureLink("p" + std::to_string(i), new Event::Handler<Node, &Node::got>(this));
        std::vector<Sub*> v;
        if ( getSubComponentSlotInfo("s") ) getSubComponentSlotInfo("s")->createAll<Sub>(v, ComponentInfo::SHARE_NONE);
        Log l;
        l.line(getName(), "{\"rank\":" + std::to_string(getRank().rank) + ",\"thread\":" + std::to_string(getRank().thread) +
            ",\"ranks\":" + std::to_string(getNumRanks().rank) + ",\"threads\":" + std::to_string(getNumRanks().thread) + ",\"ports\":" + std::to_string(ports) + "}");
    }
    Node() = default;
    void got(Event* e) { delete e; }
    void serialize_order(SST::Core::Serialization::serializer& ser) override { Component::serialize_order(ser); }
    ImplementSerializable(VFPT::Node);
};
} // namespace VFPT
