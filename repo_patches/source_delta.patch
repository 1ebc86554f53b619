From b0987472a8caca9140bd5bf03572199bfcd1edf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:41 +0000
Subject: [PATCH 01/28] fix: keep a label's width at least one when adjusting
 between element sizes

---
 include/Pothos/Framework/Label.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Pothos/Framework/Label.hpp b/include/Pothos/Framework/Label.hpp
index 766c21b..46ae158 100644
--- a/include/Pothos/Framework/Label.hpp
+++ b/include/Pothos/Framework/Label.hpp
@@ -152,6 +152,7 @@ Pothos::Label &Pothos::Label::adjust(const MultType &mult, const DivType &div)
     this->width *= mult;
     this->index /= div;
     this->width /= div;
+    if (this->width == 0) this->width = 1; //the width may not be zero
     return *this;
 }
 
-- 
2.43.0


From 0bb9c64be2601a6ac3d811396569003cbc2540c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:30 +0000
Subject: [PATCH 02/28] fix: rewind out of an accumulator's pool buffer only
 into bytes that were copied from the next buffer

---
 .../Pothos/Framework/BufferAccumulator.hpp    |  2 +-
 lib/Framework/BufferAccumulator.cpp           | 21 ++++++++++++-------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/Pothos/Framework/BufferAccumulator.hpp b/include/Pothos/Framework/BufferAccumulator.hpp
index 914e115..c66596f 100644
--- a/include/Pothos/Framework/BufferAccumulator.hpp
+++ b/include/Pothos/Framework/BufferAccumulator.hpp
@@ -86,7 +86,7 @@ public:
 private:
     Util::RingDeque<BufferChunk> _queue;
     size_t _bytesAvailable;
-    bool _inPoolBuffer;
+    size_t _poolOverlapBytes; //bytes at the end of a front pool buffer that also precede front+1
     BufferPool _pool;
 };
 
diff --git a/lib/Framework/BufferAccumulator.cpp b/lib/Framework/BufferAccumulator.cpp
index 7dc7476..cabbd06 100644
--- a/lib/Framework/BufferAccumulator.cpp
+++ b/lib/Framework/BufferAccumulator.cpp
@@ -16,7 +16,7 @@
 Pothos::BufferAccumulator::BufferAccumulator(void):
     _queue(64/*arbitrary*/),
     _bytesAvailable(0),
-    _inPoolBuffer(false)
+    _poolOverlapBytes(0)
 {
     //never let the queue become empty -- hold an empty buffer
     if (_queue.empty()) _queue.push_front(BufferChunk());
@@ -26,7 +26,7 @@ void Pothos::BufferAccumulator::clear(void)
 {
     _queue.clear();
     _bytesAvailable = 0;
-    _inPoolBuffer = false;
+    _poolOverlapBytes = 0;
     _pool.clear();
 
     //never let the queue become empty -- hold an empty buffer
@@ -49,7 +49,11 @@ void Pothos::BufferAccumulator::push(BufferChunk &&buffer)
     const auto nexts = buffer._nextBuffers;
 
     //remove possible dummy empty buffer from the front
-    if (queue.front().length == 0) queue.pop_front();
+    if (queue.front().length == 0)
+    {
+        queue.pop_front();
+        _poolOverlapBytes = 0; //may have been an empty pool buffer
+    }
 
     //Resize the queue before pushing if it full of managed buffers.
     //The implementation of set_capacity preserves the queue elements.
@@ -131,8 +135,8 @@ void Pothos::BufferAccumulator::pop(const size_t numBytes)
     //and the remainder bytes are in front+1,
     //then pop the front and move into front+1.
     if (
-        _inPoolBuffer and queue.size() > 1 and //pool in front
-        queue.front().length <= (queue[1].address - queue[1].getBuffer().getAddress()))
+        _poolOverlapBytes != 0 and queue.size() > 1 and //pool in front
+        queue.front().length <= _poolOverlapBytes)
     {
         queue[1].address -= queue.front().length;
         queue[1].length += queue.front().length;
@@ -161,7 +165,7 @@ void Pothos::BufferAccumulator::pop(const size_t numBytes)
     }
 
     //clear the pool buffer state when the queue size shrinks
-    if (_inPoolBuffer and queueSize != queue.size()) _inPoolBuffer = false;
+    if (queueSize != queue.size()) _poolOverlapBytes = 0;
 
     //pop all of the front-most consumed buffers
     while (not queue.empty() and queue.front().length == 0) queue.pop_front();
@@ -187,7 +191,7 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
     if (_bytesAvailable < numBytes and queue.size() == 1 and
         numBytes <= queue.front().getBuffer().getLength()) return;
 
-    //Actually this is ok: assert(not _inPoolBuffer);
+    //Actually this is ok when a pool buffer is already in front:
     //The smaller pool buffer in front will be absorbed and popped.
 
     //get a buffer that can hold the required bytes
@@ -197,6 +201,7 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
     newBuffer.length = 0;
 
     //copy from the queue into the new buffer
+    _poolOverlapBytes = 0;
     while (not queue.empty())
     {
         //copy the front buffer into the new buffer
@@ -220,12 +225,12 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
             assert(newBuffBytes == 0);
             f.length -= copyBytes;
             f.address += copyBytes;
+            _poolOverlapBytes = copyBytes;
             break;
         }
     }
 
     //finally store the new buffer to the front
-    _inPoolBuffer = true;
     queue.push_front(std::move(newBuffer));
 }
 
-- 
2.43.0


From 3edd78875f77ea068db7ed088a330f818694222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:52 +0000
Subject: [PATCH 03/28] fix: do not stall a block whose read-before-write input
 holds only a fragment of an element

---
 lib/Framework/WorkerActor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Framework/WorkerActor.cpp b/lib/Framework/WorkerActor.cpp
index f166d78..c0ba676 100644
--- a/lib/Framework/WorkerActor.cpp
+++ b/lib/Framework/WorkerActor.cpp
@@ -317,6 +317,7 @@ bool Pothos::WorkerActor::preWorkTasks(void)
 
         //now determine the buffer provided to this port
         if (tryRBW and port._buffer.useCount() == 2 and //2 -> accumulator + this port
+            port._buffer.length >= port.dtype().size() and //not just a fragment of an element
             port._buffer.getEnd() <= port._buffer.getBuffer().getEnd()) //no amalgamation
         {
             port._bufferFromManager = false;
-- 
2.43.0


From 7728ca29c76a0a2a94f21c2f4088a7c4998280ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:27 +0000
Subject: [PATCH 04/28] fix: keep the reference when a BufferChunk or
 ManagedBuffer is assigned to itself

---
 include/Pothos/Framework/BufferChunk.hpp   | 2 ++
 include/Pothos/Framework/ManagedBuffer.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/Pothos/Framework/BufferChunk.hpp b/include/Pothos/Framework/BufferChunk.hpp
index 299f121..08d8bf7 100644
--- a/include/Pothos/Framework/BufferChunk.hpp
+++ b/include/Pothos/Framework/BufferChunk.hpp
@@ -350,6 +350,7 @@ inline Pothos::BufferChunk::~BufferChunk(void)
 
 inline Pothos::BufferChunk &Pothos::BufferChunk::operator=(const BufferChunk &other)
 {
+    if (this == &other) return *this;
     _decrNextBuffers();
     address = other.address;
     length = other.length;
@@ -361,6 +362,7 @@ inline Pothos::BufferChunk &Pothos::BufferChunk::operator=(const BufferChunk &ot
 
 inline Pothos::BufferChunk &Pothos::BufferChunk::operator=(BufferChunk &&other)
 {
+    if (this == &other) return *this;
     _decrNextBuffers();
     address = std::move(other.address);
     length = std::move(other.length);
diff --git a/include/Pothos/Framework/ManagedBuffer.hpp b/include/Pothos/Framework/ManagedBuffer.hpp
index bf308cd..139e237 100644
--- a/include/Pothos/Framework/ManagedBuffer.hpp
+++ b/include/Pothos/Framework/ManagedBuffer.hpp
@@ -221,6 +221,7 @@ inline Pothos::ManagedBuffer::ManagedBuffer(ManagedBuffer &&obj) noexcept:
 
 inline Pothos::ManagedBuffer &Pothos::ManagedBuffer::operator=(const ManagedBuffer &obj)
 {
+    if (this == &obj) return *this;
     if (_impl != nullptr) _impl->decr();
     this->_impl = obj._impl;
     if (_impl != nullptr) _impl->incr();
@@ -229,6 +230,7 @@ inline Pothos::ManagedBuffer &Pothos::ManagedBuffer::operator=(const ManagedBuff
 
 inline Pothos::ManagedBuffer &Pothos::ManagedBuffer::operator=(ManagedBuffer &&obj)
 {
+    if (this == &obj) return *this;
     if (_impl != nullptr) _impl->decr();
     this->_impl = obj._impl;
     obj._impl = nullptr;
-- 
2.43.0


From adefde5bd9401197c22f39dd46f1faba72cc22ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:34 +0000
Subject: [PATCH 05/28] fix: a failed connect or disconnect leaves the topology
 and its ports as they were

---
 lib/Framework/Topology.cpp | 52 +++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/lib/Framework/Topology.cpp b/lib/Framework/Topology.cpp
index 23ca564..0f4eb1b 100644
--- a/lib/Framework/Topology.cpp
+++ b/lib/Framework/Topology.cpp
@@ -147,6 +147,11 @@ void Pothos::Topology::_connect(
             throw Pothos::TopologyConnectError("Pothos::Topology::connect()", flow.dst.toString() + " has no input port named " + dstName);
     }
 
+    //validate that the flow is new before anything is recorded
+    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
+    if (it != _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::connect()",
+        Poco::format("this flow already exists in the topology(%s)", flow.toString()));
+
     //store port info for connections to the hierarchy
     if (not flow.src.obj and flow.dst.obj)
     {
@@ -187,10 +192,6 @@ void Pothos::Topology::_connect(
         _impl->outputPortInfo[dstName].name = dstName;
     }
 
-    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
-    if (it != _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::connect()",
-        Poco::format("this flow already exists in the topology(%s)", flow.toString()));
-
     _impl->flows.push_back(flow);
 }
 
@@ -207,28 +208,31 @@ void Pothos::Topology::_disconnect(
     flow.src = _impl->makePort(src, srcName);
     flow.dst = _impl->makePort(dst, dstName);
 
-    //validate that the ports exists before disconnection
-    std::vector<std::string> outs = getConnectable(src).call("outputPortNames");
-    if (std::find(outs.begin(), outs.end(), srcName) == outs.end())
-        throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.src.toString() + " has no output port named " + srcName);
-
-    std::vector<std::string> ins = getConnectable(dst).call("inputPortNames");
-    if (std::find(ins.begin(), ins.end(), dstName) == ins.end())
-        throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.dst.toString() + " has no input port named " + dstName);
-
-    //clear port info for disconnections from the hierarchy
-    if (not flow.src.obj) _impl->outputPortNames.erase(std::find(_impl->outputPortNames.begin(), _impl->outputPortNames.end(), srcName));
-    if (not flow.dst.obj) _impl->inputPortNames.erase(std::find(_impl->inputPortNames.begin(), _impl->inputPortNames.end(), dstName));
-
+    //validate that the flow exists before disconnection
     const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
     if (it == _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()",
         Poco::format("this flow does not exist in the topology(%s)", flow.toString()));
 
-    //perform auto-deletion, on a block this may or may not delete, on a topology this throws
-    try{getConnectable(src).get("_actor").call("autoDeleteOutput", srcName);}catch(const Exception &){}
-    try{getConnectable(dst).get("_actor").call("autoDeleteInput", dstName);}catch(const Exception &){}
+    //clear port info for disconnections from the hierarchy:
+    //this topology is the source of flows from its inputs, and the destination of flows to its outputs
+    auto &ins = _impl->inputPortNames;
+    auto &outs = _impl->outputPortNames;
+    if (not flow.src.obj) ins.erase(std::find(ins.begin(), ins.end(), srcName));
+    if (not flow.dst.obj) outs.erase(std::find(outs.begin(), outs.end(), dstName));
 
     _impl->flows.erase(it);
+
+    //leave the ports alone when they are still in use by another flow
+    bool srcInUse(false), dstInUse(false);
+    for (const auto &other : _impl->flows)
+    {
+        if (other.src == flow.src) srcInUse = true;
+        if (other.dst == flow.dst) dstInUse = true;
+    }
+
+    //perform auto-deletion, on a block this may or may not delete, on a topology this throws
+    if (not srcInUse) try{getConnectable(src).get("_actor").call("autoDeleteOutput", srcName);}catch(const Exception &){}
+    if (not dstInUse) try{getConnectable(dst).get("_actor").call("autoDeleteInput", dstName);}catch(const Exception &){}
 }
 
 void Pothos::Topology::disconnectAll(const bool recursive)
@@ -239,13 +243,13 @@ void Pothos::Topology::disconnectAll(const bool recursive)
         //throws ProxyHandleCallError on non topologies (aka blocks)
         if (flow.src.obj) try
         {
-            flow.src.obj.call("disconnectAll");
+            flow.src.obj.call("disconnectAll", true);
         }
         catch (const Pothos::Exception &){}
 
         if (flow.dst.obj) try
         {
-            flow.dst.obj.call("disconnectAll");
+            flow.dst.obj.call("disconnectAll", true);
         }
         catch (const Pothos::Exception &){}
     }
@@ -257,8 +261,10 @@ void Pothos::Topology::disconnectAll(const bool recursive)
         if (flow.dst.obj) try{getInternalBlock(flow.dst.obj).get("_actor").call("autoDeleteInput", flow.dst.name);}catch(const Exception &){}
     }
 
-    //clear our own local flows
+    //clear our own local flows and the ports made by them
     _impl->flows.clear();
+    _impl->inputPortNames.clear();
+    _impl->outputPortNames.clear();
 }
 
 bool Pothos::Topology::waitInactive(const double idleDuration, const double timeout)
-- 
2.43.0


From 6541dca5d2d37ec0fc19811d00c310ea65faaa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:34 +0000
Subject: [PATCH 06/28] fix: automatic port allocation and deletion takes the
 actor's lock and gives a running block's new output a buffer manager

---
 lib/Framework/WorkerActorPortAllocation.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/Framework/WorkerActorPortAllocation.cpp b/lib/Framework/WorkerActorPortAllocation.cpp
index f946af8..b0f4ffb 100644
--- a/lib/Framework/WorkerActorPortAllocation.cpp
+++ b/lib/Framework/WorkerActorPortAllocation.cpp
@@ -101,12 +101,20 @@ void Pothos::WorkerActor::allocateSlot(const std::string &name)
 
 void Pothos::WorkerActor::autoAllocateInput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoAllocatePort(this->inputs, block->_namedInputs, block->_indexedInputs, block->_inputPortNames, name);
 }
 
 void Pothos::WorkerActor::autoAllocateOutput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoAllocatePort(this->outputs, block->_namedOutputs, block->_indexedOutputs, block->_outputPortNames, name);
+
+    //an active block cannot work without a buffer manager on every output
+    if (this->activeState and this->outputs.count(name) != 0 and not this->outputs.at(name)->_bufferManager)
+    {
+        this->ensureOutputBufferManagerNoLock(name);
+    }
 }
 
 void Pothos::WorkerActor::updatePorts(void)
@@ -163,10 +171,12 @@ void Pothos::WorkerActor::autoDeletePort(const std::string &name, PortsType &por
 
 void Pothos::WorkerActor::autoDeleteInput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoDeletePort(name, this->inputs, block->_namedInputs, block->_indexedInputs, block->_inputPortNames);
 }
 
 void Pothos::WorkerActor::autoDeleteOutput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoDeletePort(name, this->outputs, block->_namedOutputs, block->_indexedOutputs, block->_outputPortNames);
 }
-- 
2.43.0


From df9111b8f4440438b9a9b29e6a5d2568b1a1b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:34 +0000
Subject: [PATCH 07/28] fix: resolve several and nested pass-through flows to
 exactly the connections they describe

---
 lib/Framework/TopologyCommit.cpp      | 32 +++++++++++++++------------
 lib/Framework/TopologySquashFlows.cpp | 25 ++++++++++++++++++---
 2 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/lib/Framework/TopologyCommit.cpp b/lib/Framework/TopologyCommit.cpp
index 4239cc6..458e2df 100644
--- a/lib/Framework/TopologyCommit.cpp
+++ b/lib/Framework/TopologyCommit.cpp
@@ -5,6 +5,7 @@
 #include <Pothos/Framework/Block.hpp>
 #include <Pothos/Framework/Exception.hpp>
 #include <Poco/Format.h>
+#include <algorithm> //find
 #include <iostream>
 #include <future>
 
@@ -164,25 +165,28 @@ static std::vector<Flow> completePassThroughFlows(const std::vector<Flow> &flows
     //std::cout << "completePassThroughFlows:" << std::endl;
     //for (const auto &flow : flows) std::cout << "  " << flow.toString() << std::endl;
 
-    //try to complete pass-through flows and add it to the out flow list
-    for (auto &flow : flows)
+    //follow each source block through pass-through ports to all destination blocks
+    for (auto &flowHead : flows)
     {
-        if (flow.src.obj or flow.dst.obj) continue;
-        for (auto &flowTail : flows)
+        if (not flowHead.src.obj or flowHead.dst.obj) continue;
+        std::vector<Port> ports(1, flowHead.dst);
+        for (size_t i = 0; i < ports.size(); i++)
         {
-            if (not flowTail.dst.obj) continue;
-            for (auto &flowHead : flows)
+            for (auto &flow : flows)
             {
-                if (not flowHead.src.obj) continue;
-                if (flow.src == flowTail.src and flow.dst == flowHead.dst)
+                if (flow.src.obj or not (flow.src == ports[i])) continue;
+                if (not flow.dst.obj)
                 {
-                    //create the new completed flow
-                    Flow newFlow;
-                    newFlow.src = flowHead.src;
-                    newFlow.dst = flowTail.dst;
-                    outFlows.push_back(newFlow);
-                    //std::cout << "NEW " << newFlow.toString() << std::endl;
+                    if (std::find(ports.begin(), ports.end(), flow.dst) == ports.end()) ports.push_back(flow.dst);
+                    continue;
                 }
+
+                //create the new completed flow
+                Flow newFlow;
+                newFlow.src = flowHead.src;
+                newFlow.dst = flow.dst;
+                outFlows.push_back(newFlow);
+                //std::cout << "NEW " << newFlow.toString() << std::endl;
             }
         }
     }
diff --git a/lib/Framework/TopologySquashFlows.cpp b/lib/Framework/TopologySquashFlows.cpp
index 8a6b963..7dc7db2 100644
--- a/lib/Framework/TopologySquashFlows.cpp
+++ b/lib/Framework/TopologySquashFlows.cpp
@@ -3,12 +3,27 @@
 
 #include "Framework/TopologyImpl.hpp"
 #include <future>
+#include <algorithm> //find
 
 /***********************************************************************
  * helpers to deal with recursive topology comprehension - ports
  **********************************************************************/
 static std::vector<Port> resolvePorts(const Port &port, const bool isSource);
 
+//A pass-through flow has no block on either end, only the ports of the topology:
+//tag the port with its direction because an input and an output can have the same name.
+static Port passThroughPort(const Port &port, const bool isOutput)
+{
+    Port tagged = port;
+    tagged.name = (isOutput?"output:":"input:") + port.name;
+    return tagged;
+}
+
+static void addPassThroughPort(std::vector<Port> &ports, const Port &port)
+{
+    if (std::find(ports.begin(), ports.end(), port) == ports.end()) ports.push_back(port);
+}
+
 std::vector<Port> resolvePortsFromTopology(const Pothos::Topology &t, const std::string &portName, const bool isSource)
 {
     std::vector<Port> ports;
@@ -19,12 +34,12 @@ std::vector<Port> resolvePortsFromTopology(const Pothos::Topology &t, const std:
         if (isSource and flow.dst.name == portName and not flow.dst.obj)
         {
             if (flow.src.obj) subPorts = resolvePorts(flow.src, isSource);
-            else ports.push_back(flow.src);
+            else addPassThroughPort(ports, passThroughPort(flow.dst, true));
         }
         if (not isSource and flow.src.name == portName and not flow.src.obj)
         {
             if (flow.dst.obj) subPorts = resolvePorts(flow.dst, isSource);
-            else ports.push_back(flow.dst);
+            else addPassThroughPort(ports, passThroughPort(flow.src, false));
         }
         ports.insert(ports.end(), subPorts.begin(), subPorts.end());
     }
@@ -167,7 +182,11 @@ std::vector<Flow> Pothos::Topology::Impl::squashFlows(const std::vector<Flow> &f
     //the outer topology will squash the pass-through flows
     for (const auto &flow : flows)
     {
-        if (not flow.src.obj and not flow.dst.obj) flatFlows.push_back(flow);
+        if (flow.src.obj or flow.dst.obj) continue;
+        Flow passFlow;
+        passFlow.src = passThroughPort(flow.src, false);
+        passFlow.dst = passThroughPort(flow.dst, true);
+        flatFlows.push_back(passFlow);
     }
 
     //only store the actual blocks
-- 
2.43.0


From b1f91ab601a3529f904ec693b83b6d9728f6783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:34 +0000
Subject: [PATCH 08/28] fix: keep the elements when a RingDeque is assigned to
 itself

---
 include/Pothos/Util/RingDeque.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Pothos/Util/RingDeque.hpp b/include/Pothos/Util/RingDeque.hpp
index d0cf340..2737ea3 100644
--- a/include/Pothos/Util/RingDeque.hpp
+++ b/include/Pothos/Util/RingDeque.hpp
@@ -177,6 +177,7 @@ RingDeque<T, A>::RingDeque(RingDeque<T, A> &&other):
 template <typename T, typename A>
 RingDeque<T, A> &RingDeque<T, A>::operator=(const RingDeque<T, A> &other)
 {
+    if (this == &other) return *this;
     this->clear();
     this->set_capacity(other.capacity());
     for (size_t i = 0; i < other.size(); i++)
@@ -189,6 +190,7 @@ RingDeque<T, A> &RingDeque<T, A>::operator=(const RingDeque<T, A> &other)
 template <typename T, typename A>
 RingDeque<T, A> &RingDeque<T, A>::operator=(RingDeque<T, A> &&other)
 {
+    if (this == &other) return *this;
     this->clear();
     _allocator.deallocate(_container, _mask+1);
     _allocator = std::move(other._allocator);
-- 
2.43.0


From ee77fce51c214407721100d826de9565c462fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:34 +0000
Subject: [PATCH 09/28] fix: joining a PluginPath with the root path gives the
 other path

---
 lib/Plugin/Path.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Plugin/Path.cpp b/lib/Plugin/Path.cpp
index 0e0d3e7..c92af94 100644
--- a/lib/Plugin/Path.cpp
+++ b/lib/Plugin/Path.cpp
@@ -44,7 +44,9 @@ Pothos::PluginPath::PluginPath(const std::string &path):
 }
 
 Pothos::PluginPath::PluginPath(const PluginPath &path0, const PluginPath &path1):
-    _path(path0._path + path1._path) //should always be valid because of individual PluginPath rules
+    //should always be valid because of individual PluginPath rules,
+    //except that the root path is only a slash and adds nothing to the other path
+    _path((path0._path == "/")? path1._path : ((path1._path == "/")? path0._path : path0._path + path1._path))
 {
     validatePathString(_path);
 }
-- 
2.43.0


From 69ce750e2dbb68faa5e85ad442827b516ff00d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:34 +0000
Subject: [PATCH 10/28] fix: plugin registry lookups must not modify the tree
 under the shared lock

---
 lib/Plugin/Registry.cpp | 63 ++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 38 deletions(-)

diff --git a/lib/Plugin/Registry.cpp b/lib/Plugin/Registry.cpp
index 08b25b7..14e65fe 100644
--- a/lib/Plugin/Registry.cpp
+++ b/lib/Plugin/Registry.cpp
@@ -47,6 +47,20 @@ static RegistryEntry &getRegistryRoot(void)
     return regRoot;
 }
 
+//find the entry at the path without creating it or return null when there is none
+//creating entries is a modification: it is not allowed under the shared lock
+static const RegistryEntry *findRegistryEntry(const std::vector<std::string> &pathNodes)
+{
+    const RegistryEntry *root = &getRegistryRoot();
+    for (const auto &name : pathNodes)
+    {
+        const auto it = root->nodes.find(name);
+        if (it == root->nodes.end()) return nullptr;
+        root = &it->second;
+    }
+    return root;
+}
+
 /***********************************************************************
  * plugin event handler
  **********************************************************************/
@@ -87,13 +101,13 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
     {
         Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
         const std::vector<std::string> pathNodes = path.listNodes();
-        RegistryEntry *root = &getRegistryRoot();
+        const RegistryEntry *root = &getRegistryRoot();
 
         for (size_t i = 0; i+1 < pathNodes.size(); i++)
         {
             parentPlugins.insert(parentPlugins.begin(), root->plugin);
             //next node in the tree at this node name
-            root = &root->nodes[pathNodes[i]];
+            root = &root->nodes.at(pathNodes[i]);
         }
         parentPlugins.insert(parentPlugins.begin(), root->plugin);
     }
@@ -188,17 +202,10 @@ void Pothos::PluginRegistry::add(const Plugin &plugin_)
 Pothos::Plugin Pothos::PluginRegistry::get(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path.listNodes());
 
     //throw if the root does not have a plugin
-    if (not root->hasPlugin)
+    if (root == nullptr or not root->hasPlugin)
     {
         throw Pothos::PluginRegistryError("Pothos::PluginRegistry::get("+path.toString()+")", "plugin path not found");
     }
@@ -242,49 +249,29 @@ Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
 bool Pothos::PluginRegistry::empty(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
+    const RegistryEntry *root = findRegistryEntry(path.listNodes());
 
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
-
-    return not root->hasPlugin;
+    return root == nullptr or not root->hasPlugin;
 }
 
 bool Pothos::PluginRegistry::exists(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
+    const RegistryEntry *root = findRegistryEntry(path.listNodes());
 
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
-
-    return root->getNumPlugins() != 0;
+    return root != nullptr and root->getNumPlugins() != 0;
 }
 
 std::vector<std::string> Pothos::PluginRegistry::list(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path.listNodes());
 
     std::vector<std::string> nodes;
+    if (root == nullptr) return nodes;
     for (const auto &name : root->nodeNamesOrdered)
     {
-        if (root->nodes[name].getNumPlugins() != 0) nodes.push_back(name);
+        if (root->nodes.at(name).getNumPlugins() != 0) nodes.push_back(name);
     }
     return nodes;
 }
-- 
2.43.0


From b5db6538588e2a8f22526500896634b5023af08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:34 +0000
Subject: [PATCH 11/28] fix: Object assignment releases the old value last, and
 a null Object is unique

---
 lib/Object/Object.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/Object/Object.cpp b/lib/Object/Object.cpp
index 20339c3..4f86e50 100644
--- a/lib/Object/Object.cpp
+++ b/lib/Object/Object.cpp
@@ -87,22 +87,28 @@ Pothos::Object::operator bool(void) const
 
 Pothos::Object &Pothos::Object::operator=(const Object &rhs)
 {
-    decr(_impl);
+    //release the old container last: it may be the new one, or own the right hand side
+    auto old = _impl;
     _impl = rhs._impl;
     incr(_impl);
+    decr(old);
     return *this;
 }
 
 Pothos::Object &Pothos::Object::operator=(Object &&rhs)
 {
-    decr(_impl);
-    _impl = rhs._impl;
+    //release the old container last: it may own the right hand side
+    auto impl = rhs._impl;
     rhs._impl = nullptr;
+    auto old = _impl;
+    _impl = impl;
+    decr(old);
     return *this;
 }
 
 bool Pothos::Object::unique(void) const
 {
+    if (_impl == nullptr) return true; //nothing is shared
     return _impl->counter.load(std::memory_order_relaxed) == 1;
 }
 
-- 
2.43.0


From fbdc141a071c8bfe2550fd5f7df0f3802bc23b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:34 +0000
Subject: [PATCH 12/28] fix: forget the conversion, comparison, hash and string
 functions of removed plugins

---
 lib/Object/Compare.cpp  | 2 +-
 lib/Object/Convert.cpp  | 2 +-
 lib/Object/Hash.cpp     | 2 +-
 lib/Object/ToString.cpp | 2 +-
 lib/Proxy/Convert.cpp   | 4 ++--
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/Object/Compare.cpp b/lib/Object/Compare.cpp
index bbf0fe8..96326f2 100644
--- a/lib/Object/Compare.cpp
+++ b/lib/Object/Compare.cpp
@@ -55,7 +55,7 @@ static void handleComparePluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getCompareMap()[typesHashCombine(t0, t1)] = Pothos::Plugin();
+            getCompareMap().erase(typesHashCombine(t0, t1));
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Object/Convert.cpp b/lib/Object/Convert.cpp
index 84e9bf5..c2b19e7 100644
--- a/lib/Object/Convert.cpp
+++ b/lib/Object/Convert.cpp
@@ -64,7 +64,7 @@ static void handleConvertPluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getConvertMap()[typesHashCombine(inputType, outputType)] = Pothos::Plugin();
+            getConvertMap().erase(typesHashCombine(inputType, outputType));
             getConvertIoMap()[inputType.hash_code()].erase(outputType.hash_code());
         }
     }
diff --git a/lib/Object/Hash.cpp b/lib/Object/Hash.cpp
index 1e0d16d..0acc355 100644
--- a/lib/Object/Hash.cpp
+++ b/lib/Object/Hash.cpp
@@ -49,7 +49,7 @@ static void handleHashFcnPluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getHashFcnMap()[call.type(0).hash_code()] = Pothos::Plugin();
+            getHashFcnMap().erase(call.type(0).hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Object/ToString.cpp b/lib/Object/ToString.cpp
index 5c2fa35..a91f929 100644
--- a/lib/Object/ToString.cpp
+++ b/lib/Object/ToString.cpp
@@ -59,7 +59,7 @@ static void handleToStringPluginEvent(const Pothos::Plugin &plugin, const std::s
         }
         if (event == "remove")
         {
-            getToStringMap()[t.hash_code()] = Pothos::Plugin();
+            getToStringMap().erase(t.hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Proxy/Convert.cpp b/lib/Proxy/Convert.cpp
index 873805b..5612e90 100644
--- a/lib/Proxy/Convert.cpp
+++ b/lib/Proxy/Convert.cpp
@@ -105,7 +105,7 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
             }
             if (event == "remove")
             {
-                getConvertToLocalMap()[hashIt(name, pair.first)] = Pothos::Plugin();
+                getConvertToLocalMap().erase(hashIt(name, pair.first));
             }
         }
         else if (isConvertToProxy(plugin))
@@ -118,7 +118,7 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
             }
             if (event == "remove")
             {
-                getConvertToProxyMap()[hashIt(name, callable.type(1))] = Pothos::Plugin();
+                getConvertToProxyMap().erase(hashIt(name, callable.type(1)));
             }
         }
         else
-- 
2.43.0


From 68a8dbe10c6c3ca6e4dae41feb8b5bcba8023804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 13/28] fix: refuse to convert numbers just past the largest
 64-bit integer, and NaN, to an integer

---
 lib/Object/Builtin/ConvertCommonImpl.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/Object/Builtin/ConvertCommonImpl.hpp b/lib/Object/Builtin/ConvertCommonImpl.hpp
index d74c016..c432121 100644
--- a/lib/Object/Builtin/ConvertCommonImpl.hpp
+++ b/lib/Object/Builtin/ConvertCommonImpl.hpp
@@ -12,6 +12,7 @@
 #include <Pothos/Callable.hpp>
 #include <Poco/Format.h>
 #include <limits>
+#include <cmath> //ldexp
 #include <complex>
 #include <string>
 #include <vector>
@@ -46,8 +47,21 @@ typedef std::complex<double> cdouble;
 template <typename OutType, typename InType>
 void convertNumCheck(const InType &in)
 {
-    if (double(in) > double(std::numeric_limits<OutType>::max()) or //too large
-        double(in) < double(std::numeric_limits<OutType>::lowest())) //too small
+    bool outOfRange =
+        double(in) > double(std::numeric_limits<OutType>::max()) or //too large
+        double(in) < double(std::numeric_limits<OutType>::lowest()); //too small
+
+    //the maximum of a 64-bit integer rounds up as a double, and not-a-number compares false
+    if (std::is_integral<OutType>::value and not outOfRange)
+    {
+        if (std::is_integral<InType>::value)
+        {
+            outOfRange = in > 0 and (unsigned long long)(in) > (unsigned long long)(std::numeric_limits<OutType>::max());
+        }
+        else outOfRange = not (double(in) < std::ldexp(1.0, std::numeric_limits<OutType>::digits));
+    }
+
+    if (outOfRange)
     {
         throw Pothos::RangeException(Poco::format("value %s out of range for output type %s",
             std::to_string(in), Pothos::Util::typeInfoToString(typeid(OutType))));
-- 
2.43.0


From c434664f0e99f10b9dc41de11f1e1710c9e53ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:41 +0000
Subject: [PATCH 14/28] fix: read negative 64-bit integers back from an archive
 with their upper bits

---
 include/Pothos/Archive/Numbers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Pothos/Archive/Numbers.hpp b/include/Pothos/Archive/Numbers.hpp
index c728386..9dfc9ed 100644
--- a/include/Pothos/Archive/Numbers.hpp
+++ b/include/Pothos/Archive/Numbers.hpp
@@ -138,7 +138,7 @@ typename std::enable_if<
 
     //sign extend the remaining bits when negative
     const auto signbit = byte & 0x40;
-    if (signbit != 0 and shift < (sizeof(T)*8)) t |= -(1 << shift);
+    if (signbit != 0 and shift < (sizeof(T)*8)) t |= -(T(1) << shift);
 }
 
 //------------ 32-64 bit unsigned integer types --------------//
-- 
2.43.0


From 57c41549b421a579e7e5cb05de15d539a089fa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:59 +0000
Subject: [PATCH 15/28] fix: reading past the end of an archive is an error,
 not a value or an endless loop

---
 include/Pothos/Archive/ArchiveEntry.hpp | 5 +++--
 include/Pothos/Archive/Polymorphic.hpp  | 3 ++-
 lib/Archive/StreamArchiver.cpp          | 6 +++++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/Pothos/Archive/ArchiveEntry.hpp b/include/Pothos/Archive/ArchiveEntry.hpp
index 970cb03..60da763 100644
--- a/include/Pothos/Archive/ArchiveEntry.hpp
+++ b/include/Pothos/Archive/ArchiveEntry.hpp
@@ -15,6 +15,7 @@
 #include <type_traits>
 #include <typeinfo>
 #include <iosfwd>
+#include <memory> //unique_ptr
 #include <string>
 
 namespace Pothos {
@@ -104,7 +105,7 @@ void Pothos::Archive::ArchiveEntryT<T>::save(OStreamArchiver &ar, const void *t)
 template <typename T>
 void *Pothos::Archive::ArchiveEntryT<T>::load(IStreamArchiver &ar) const
 {
-    T *t = new T();
+    std::unique_ptr<T> t(new T());
     ar >> *t;
-    return t;
+    return t.release();
 }
diff --git a/include/Pothos/Archive/Polymorphic.hpp b/include/Pothos/Archive/Polymorphic.hpp
index e2680d8..18d8d1d 100644
--- a/include/Pothos/Archive/Polymorphic.hpp
+++ b/include/Pothos/Archive/Polymorphic.hpp
@@ -34,8 +34,9 @@ load(Archive &ar, T* &t, const unsigned int)
     unsigned long long idHash;
     ar >> idHash;
     const auto &entry = Pothos::Archive::ArchiveEntry::find(idHash);
+    auto loaded = static_cast<T*>(entry.load(ar));
     delete t; //delete previous pointer or its null
-    t = static_cast<T*>(entry.load(ar));
+    t = loaded;
 }
 
 template <typename Archive, typename T>
diff --git a/lib/Archive/StreamArchiver.cpp b/lib/Archive/StreamArchiver.cpp
index 1b95898..3f6d6d2 100644
--- a/lib/Archive/StreamArchiver.cpp
+++ b/lib/Archive/StreamArchiver.cpp
@@ -3,6 +3,7 @@
 
 #include <Pothos/Archive/StreamArchiver.hpp>
 #include <Pothos/Archive/Numbers.hpp>
+#include <Pothos/Archive/Exception.hpp>
 #include <iostream>
 
 #define POTHOS_ARCHIVE_VERSION 2
@@ -28,5 +29,8 @@ Pothos::Archive::IStreamArchiver::IStreamArchiver(std::istream &is):
 void Pothos::Archive::IStreamArchiver::readBytes(void *buff, const size_t len)
 {
     if (len == 0) return;
-    is.read(reinterpret_cast<char *>(buff), len);
+    if (not is.read(reinterpret_cast<char *>(buff), len))
+    {
+        throw Pothos::ArchiveException("IStreamArchiver::readBytes()", "unexpected end of stream");
+    }
 }
-- 
2.43.0


From 54164199ab185c9ebab14d315d30a589e0d8a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:54 +0000
Subject: [PATCH 16/28] fix: a value that cannot be serialized fails its own
 remote call and not the whole connection

---
 lib/Remote/RemoteProxy.cpp   |  6 +++++-
 lib/Remote/ServerHandler.cpp | 13 ++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/Remote/RemoteProxy.cpp b/lib/Remote/RemoteProxy.cpp
index 10bd940..cc7bbb6 100644
--- a/lib/Remote/RemoteProxy.cpp
+++ b/lib/Remote/RemoteProxy.cpp
@@ -30,7 +30,11 @@ Pothos::ObjectKwargs RemoteProxyEnvironment::transact(const Pothos::ObjectKwargs
         std::lock_guard<std::mutex> lock(osMutex);
         sendDatagram(os, reqArgs);
     }
-    POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
+    POTHOS_EXCEPTION_CATCH(const Pothos::ObjectSerializeError &)
+    {
+        throw; //the arguments failed to serialize, nothing was sent
+    }
+    catch (const Pothos::Exception &ex)
     {
         connectionActive = false;
         throw Pothos::IOException("RemoteProxyEnvironment::sendDatagram()", ex.message());
diff --git a/lib/Remote/ServerHandler.cpp b/lib/Remote/ServerHandler.cpp
index 586fb6c..890fbe1 100644
--- a/lib/Remote/ServerHandler.cpp
+++ b/lib/Remote/ServerHandler.cpp
@@ -171,7 +171,18 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
     }
 
     //serialize the reply
-    sendDatagram(os, replyArgs);
+    try
+    {
+        sendDatagram(os, replyArgs);
+    }
+    //the result failed to serialize, nothing was sent, so reply with the error
+    catch (const Pothos::ObjectSerializeError &ex)
+    {
+        Pothos::ObjectKwargs errorArgs;
+        errorArgs["tid"] = reqArgs.at("tid");
+        errorArgs["errorMsg"] = Pothos::Object(ex.displayText());
+        sendDatagram(os, errorArgs);
+    }
 
     return done;
 }
-- 
2.43.0


From 42a82f1f369de5c5bb64756d2bafb57f2bfa67f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:28 +0000
Subject: [PATCH 17/28] fix: when a remote connection breaks, every thread
 waiting for a reply is told

---
 lib/Remote/RemoteProxy.cpp | 10 +++++++++-
 lib/Remote/RemoteProxy.hpp |  3 ++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/Remote/RemoteProxy.cpp b/lib/Remote/RemoteProxy.cpp
index cc7bbb6..cfe91e9 100644
--- a/lib/Remote/RemoteProxy.cpp
+++ b/lib/Remote/RemoteProxy.cpp
@@ -56,6 +56,12 @@ Pothos::ObjectKwargs RemoteProxyEnvironment::transact(const Pothos::ObjectKwargs
             return reply;
         }
 
+        //another thread found the connection to be broken
+        if (not connectionActive)
+        {
+            throw Pothos::IOException("RemoteProxyEnvironment::transact()", "connection inactive");
+        }
+
         //a thread is blocking on the input stream wait here
         if (isBlocking)
         {
@@ -74,9 +80,11 @@ Pothos::ObjectKwargs RemoteProxyEnvironment::transact(const Pothos::ObjectKwargs
         }
         POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
         {
+            lock.lock();
             isBlocking = false;
-            isCond.notify_all();
             connectionActive = false;
+            lock.unlock();
+            isCond.notify_all();
             throw Pothos::IOException("RemoteProxyEnvironment::recvDatagram()", ex.message());
         }
         lock.lock();
diff --git a/lib/Remote/RemoteProxy.hpp b/lib/Remote/RemoteProxy.hpp
index b9842c1..04f70a4 100644
--- a/lib/Remote/RemoteProxy.hpp
+++ b/lib/Remote/RemoteProxy.hpp
@@ -5,6 +5,7 @@
 #include <Pothos/Config.hpp>
 #include <Pothos/Proxy.hpp>
 #include <Pothos/Object/Containers.hpp>
+#include <atomic>
 #include <mutex>
 #include <condition_variable>
 
@@ -72,7 +73,7 @@ public:
     std::istream &is;
     std::ostream &os;
     const std::string name;
-    bool connectionActive;
+    std::atomic<bool> connectionActive;
 
     std::mutex osMutex;
     std::mutex isMutex;
-- 
2.43.0


From 30be2f059f8603f10bde1ae532ead41408ccc732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:53 +0000
Subject: [PATCH 18/28] fix: a refused connect does not leave an automatically
 allocated port behind

---
 lib/Framework/Topology.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/Framework/Topology.cpp b/lib/Framework/Topology.cpp
index 0f4eb1b..e2b4569 100644
--- a/lib/Framework/Topology.cpp
+++ b/lib/Framework/Topology.cpp
@@ -128,30 +128,36 @@ void Pothos::Topology::_connect(
     flow.src = _impl->makePort(src, srcName);
     flow.dst = _impl->makePort(dst, dstName);
 
-    //perform auto-allocation, on a block this may or may not allocate, on a topology this throws
-    try{getConnectable(src).get("_actor").call("autoAllocateOutput", srcName);}catch(const Exception &){}
-    try{getConnectable(dst).get("_actor").call("autoAllocateInput", dstName);}catch(const Exception &){}
+    //validate that the flow is new before anything is allocated or recorded
+    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
+    if (it != _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::connect()",
+        Poco::format("this flow already exists in the topology(%s)", flow.toString()));
 
     //validate that the ports exists before connection
+    //and perform auto-allocation, on a block this may or may not allocate, on a topology this throws
+    bool srcAllocated(false);
     if (flow.src.obj)
     {
         std::vector<std::string> outs = getConnectable(src).call("outputPortNames");
+        srcAllocated = std::find(outs.begin(), outs.end(), srcName) == outs.end();
+        try{getConnectable(src).get("_actor").call("autoAllocateOutput", srcName);}catch(const Exception &){}
+        outs = getConnectable(src).call<std::vector<std::string>>("outputPortNames");
         if (std::find(outs.begin(), outs.end(), srcName) == outs.end())
             throw Pothos::TopologyConnectError("Pothos::Topology::connect()", flow.src.toString() + " has no output port named " + srcName);
     }
 
     if (flow.dst.obj)
     {
+        try{getConnectable(dst).get("_actor").call("autoAllocateInput", dstName);}catch(const Exception &){}
         std::vector<std::string> ins = getConnectable(dst).call("inputPortNames");
         if (std::find(ins.begin(), ins.end(), dstName) == ins.end())
+        {
+            //undo the allocation made for the source
+            if (srcAllocated) try{getConnectable(src).get("_actor").call("autoDeleteOutput", srcName);}catch(const Exception &){}
             throw Pothos::TopologyConnectError("Pothos::Topology::connect()", flow.dst.toString() + " has no input port named " + dstName);
+        }
     }
 
-    //validate that the flow is new before anything is recorded
-    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
-    if (it != _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::connect()",
-        Poco::format("this flow already exists in the topology(%s)", flow.toString()));
-
     //store port info for connections to the hierarchy
     if (not flow.src.obj and flow.dst.obj)
     {
-- 
2.43.0


From 4e184ee0719699f12bbb056e09b2c6ce07a4abfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:52 +0000
Subject: [PATCH 19/28] fix: keep converted arguments of a remote call alive
 until the call was made

---
 lib/Remote/RemoteProxyHandle.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Remote/RemoteProxyHandle.cpp b/lib/Remote/RemoteProxyHandle.cpp
index f53c0ad..f04e056 100644
--- a/lib/Remote/RemoteProxyHandle.cpp
+++ b/lib/Remote/RemoteProxyHandle.cpp
@@ -5,6 +5,7 @@
 #include <Poco/Format.h>
 #include <Poco/Logger.h>
 #include <iostream>
+#include <vector>
 
 RemoteProxyHandle::RemoteProxyHandle(std::shared_ptr<RemoteProxyEnvironment> env, const size_t remoteID):
     env(env), remoteID(remoteID)
@@ -37,9 +38,11 @@ Pothos::Proxy RemoteProxyHandle::call(const std::string &name, const Pothos::Pro
     req["action"] = Pothos::Object("call");
     req["handleID"] = Pothos::Object(this->remoteID);
     req["name"] = Pothos::Object(name);
+    //converted arguments only exist on the server as long as their handles do
+    std::vector<std::shared_ptr<RemoteProxyHandle>> handles(numArgs);
     for (size_t i = 0; i < numArgs; i++)
     {
-        std::shared_ptr<RemoteProxyHandle> handle;
+        auto &handle = handles[i];
         try
         {
             handle = env->getHandle(args[i]);
-- 
2.43.0


From c5f8bf0ee447f7a2eaf836dd79bbb3e9c5caa402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:48 +0000
Subject: [PATCH 20/28] fix: looking up an unloaded class reports that it is
 not registered

Unloading stored a null plugin in the class map, so ManagedClass::lookup()
threw ObjectConvertError instead of ManagedClassLookupError.
---
 lib/Managed/Registry.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Managed/Registry.cpp b/lib/Managed/Registry.cpp
index 1c3d1bd..0579570 100644
--- a/lib/Managed/Registry.cpp
+++ b/lib/Managed/Registry.cpp
@@ -49,9 +49,9 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
         }
         if (event == "remove")
         {
-            getClassMap()[reg.type().hash_code()] = Pothos::Plugin();
-            getClassMap()[reg.pointerType().hash_code()] = Pothos::Plugin();
-            getClassMap()[reg.sharedType().hash_code()] = Pothos::Plugin();
+            getClassMap().erase(reg.type().hash_code());
+            getClassMap().erase(reg.pointerType().hash_code());
+            getClassMap().erase(reg.sharedType().hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
-- 
2.43.0


From a4f85bce5a5e48a7eb1d684b4d03cb9ced04ea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 21/28] fix: a failed class commit leaves no constructor
 conversions behind

When the class path was taken, ManagedClass::commit() threw with the
conversions of its one-argument constructors still registered: objects
kept converting to the class, and the class could not be committed again.
---
 lib/Managed/Class.cpp | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/lib/Managed/Class.cpp b/lib/Managed/Class.cpp
index 17a51a9..1069cc1 100644
--- a/lib/Managed/Class.cpp
+++ b/lib/Managed/Class.cpp
@@ -205,21 +205,30 @@ static std::string typeToPluginPath(const std::type_info &type)
 
 Pothos::ManagedClass &Pothos::ManagedClass::commit(const std::string &classPath)
 {
-    //register conversions for constructors that take one argument
-    for (const auto &constructor : this->getConstructors())
+    std::vector<PluginPath> conversions;
+    try
     {
-        if (constructor.getNumArgs() != 1) continue;
-        Pothos::PluginRegistry::add(
-            Poco::format("/object/convert/constructors/%s_to_%s",
-            typeToPluginPath(constructor.type(0)),
-            typeToPluginPath(constructor.type(-1))),
-            constructor
-        );
+        //register conversions for constructors that take one argument
+        for (const auto &constructor : this->getConstructors())
+        {
+            if (constructor.getNumArgs() != 1) continue;
+            const PluginPath path(Poco::format("/object/convert/constructors/%s_to_%s",
+                typeToPluginPath(constructor.type(0)),
+                typeToPluginPath(constructor.type(-1))));
+            Pothos::PluginRegistry::add(path, constructor);
+            conversions.push_back(path);
+        }
+
+        PluginRegistry::add(
+            PluginPath("/managed").join(classPath),
+            dynamic_cast<ManagedClass &>(*this));
+    }
+    catch (...)
+    {
+        //a failed commit leaves no conversions behind
+        for (const auto &path : conversions) PluginRegistry::remove(path);
+        throw;
     }
-
-    PluginRegistry::add(
-        PluginPath("/managed").join(classPath),
-        dynamic_cast<ManagedClass &>(*this));
     return *this;
 }
 
-- 
2.43.0


From 420b781f08c3eb5f615472680bed53356dd623c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 22/28] fix: an unbalanced closing bracket in an expression is
 an error, not a crash

splitExpr() looked at the top of an empty stack. Topology::make() evaluates
every string, so a plain string argument such as "a]" crashed as well.
---
 lib/Util/EvalEnvironmentListParsers.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/Util/EvalEnvironmentListParsers.cpp b/lib/Util/EvalEnvironmentListParsers.cpp
index 5101706..e6c0c5c 100644
--- a/lib/Util/EvalEnvironmentListParsers.cpp
+++ b/lib/Util/EvalEnvironmentListParsers.cpp
@@ -26,12 +26,14 @@ std::vector<std::string> Pothos::Util::EvalEnvironment::splitExpr(const std::str
         else if ((ch == ')' and tokenizer != '\0') or ch == '}' or ch == ']')
         {
             field.push_back(ch);
-            if ((specials.top() == '(' and ch == ')') or
+            const bool ended = not specials.empty() and (
+                (specials.top() == '(' and ch == ')') or
                 (specials.top() == '{' and ch == '}') or
-                (specials.top() == '[' and ch == ']')) specials.pop();
+                (specials.top() == '[' and ch == ']'));
+            if (ended) specials.pop();
 
             //top level container ended
-            if (specials.empty() and tokenizer == '\0')
+            if (ended and specials.empty() and tokenizer == '\0')
             {
                 if (not field.empty()) tokens.push_back(field);
                 field.clear();
-- 
2.43.0


From c797635728debf7642a7c042776b219a2a3bca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 23/28] fix: a string that ends in a backslash ends there when
 an expression is split

In ["\\\\", 1] the closing quote was taken for an escaped one, and the list did not evaluate.
---
 lib/Util/EvalEnvironmentListParsers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Util/EvalEnvironmentListParsers.cpp b/lib/Util/EvalEnvironmentListParsers.cpp
index e6c0c5c..145579a 100644
--- a/lib/Util/EvalEnvironmentListParsers.cpp
+++ b/lib/Util/EvalEnvironmentListParsers.cpp
@@ -70,7 +70,8 @@ std::vector<std::string> Pothos::Util::EvalEnvironment::splitExpr(const std::str
             if (not field.empty() or not std::isspace(ch)) field.push_back(ch);
         }
 
-        previousCh = ch;
+        //an escaped backslash does not escape what follows
+        previousCh = (ch == '\\' and previousCh == '\\')? '\0' : ch;
     }
 
     if (not field.empty()) tokens.push_back(field);
-- 
2.43.0


From 5353ccaea97ecca49562a51f7cf014bb65304c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 24/28] fix: containers in nested expressions no longer
 overwrite those of the outer one

[10] + [[7]*[8]] evaluated to [63]: the temporary constants of the inner
expression have the same names as those of the outer one.
---
 lib/Util/EvalEnvironment.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/Util/EvalEnvironment.cpp b/lib/Util/EvalEnvironment.cpp
index 4ed0548..ca5d283 100644
--- a/lib/Util/EvalEnvironment.cpp
+++ b/lib/Util/EvalEnvironment.cpp
@@ -204,15 +204,15 @@ Pothos::Object Pothos::Util::EvalEnvironment::eval(const std::string &expr)
     const auto tokens = EvalEnvironment::splitExpr(expr);
     if (tokens.size() > 1)
     {
-        size_t index = 0;
+        std::map<std::string, Pothos::Object> tmps;
         std::string newExpr;
         for (const auto &tok : tokens)
         {
             if (tok.empty()) continue;
             if (tok.front() == '[' or tok.front() == '{')
             {
-                const std::string key = tmpTypeId + std::to_string(index++);
-                this->registerConstantObj(key, this->eval(tok));
+                const std::string key = tmpTypeId + std::to_string(tmps.size());
+                tmps[key] = this->eval(tok);
                 newExpr += key;
             }
             else
@@ -220,6 +220,8 @@ Pothos::Object Pothos::Util::EvalEnvironment::eval(const std::string &expr)
                 newExpr += tok;
             }
         }
+        //register once all are evaluated, evaluation uses the same names
+        for (const auto &pair : tmps) this->registerConstantObj(pair.first, pair.second);
         return this->eval(newExpr);
     }
 
-- 
2.43.0


From 7cccb51d828afe3beb4be238de185d69654a3e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:41 +0000
Subject: [PATCH 25/28] fix: a list or map followed by a space evaluates

[[1] , 2] was an error: only the space in front of an element was dropped.
---
 lib/Util/EvalEnvironment.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Util/EvalEnvironment.cpp b/lib/Util/EvalEnvironment.cpp
index ca5d283..58ca483 100644
--- a/lib/Util/EvalEnvironment.cpp
+++ b/lib/Util/EvalEnvironment.cpp
@@ -198,7 +198,9 @@ void Pothos::Util::EvalEnvironment::unregisterConstant(const std::string &key)
 
 Pothos::Object Pothos::Util::EvalEnvironment::eval(const std::string &expr)
 {
-    if (Poco::trim(expr).empty()) throw Pothos::Exception("EvalEnvironment::eval()", "expression is empty");
+    const auto trimmed = Poco::trim(expr);
+    if (trimmed.empty()) throw Pothos::Exception("EvalEnvironment::eval()", "expression is empty");
+    if (trimmed.size() != expr.size()) return this->eval(trimmed);
 
     //handle multiple containers in top level
     const auto tokens = EvalEnvironment::splitExpr(expr);
-- 
2.43.0


From 76bcbf66b4d743b3a4ab04b1054330b1cf67d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:40 +0000
Subject: [PATCH 26/28] fix: keep the copiers of domain crossings from commit
 to commit

Every commit replaced them, and the data inside was lost.
---
 lib/Framework/TopologyCommit.cpp      | 13 +++++++++++++
 lib/Framework/TopologyDomainFlows.cpp | 20 ++++++++++++++------
 lib/Framework/TopologyImpl.hpp        |  1 +
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/lib/Framework/TopologyCommit.cpp b/lib/Framework/TopologyCommit.cpp
index 458e2df..6da5eda 100644
--- a/lib/Framework/TopologyCommit.cpp
+++ b/lib/Framework/TopologyCommit.cpp
@@ -345,4 +345,17 @@ void Pothos::Topology::commit(void)
         newNetgressCache[it->first] = it->second;
     }
     _impl->srcToNetgressCache = newNetgressCache;
+
+    //Likewise, only keep the copiers that are in the active flows.
+    for (auto cache : {&_impl->srcToCopierCache, &_impl->dstToCopierCache})
+    {
+        for (auto it = cache->begin(); it != cache->end();)
+        {
+            const auto uid = it->second.call<std::string>("uid");
+            const bool used = std::any_of(flatFlows.begin(), flatFlows.end(),
+                [&uid](const Flow &flow){return flow.src.uid == uid or flow.dst.uid == uid;});
+            if (used) ++it;
+            else it = cache->erase(it);
+        }
+    }
 }
diff --git a/lib/Framework/TopologyDomainFlows.cpp b/lib/Framework/TopologyDomainFlows.cpp
index dd9431d..db5345c 100644
--- a/lib/Framework/TopologyDomainFlows.cpp
+++ b/lib/Framework/TopologyDomainFlows.cpp
@@ -77,10 +77,15 @@ static bool isDomainCrossingAcceptable(
 static Pothos::Proxy getCopierForDomainCrossing(
     const Port &mainPort,
     const std::vector<Port> &subPorts,
-    const bool isInput
+    const bool isInput,
+    const Pothos::Proxy &currentCopier
 )
 {
     if (isDomainCrossingAcceptable(mainPort, subPorts, isInput)) return Pothos::Proxy();
+
+    //keep the copier from the previous commit so the data inside is not lost
+    if (currentCopier) return currentCopier;
+
     auto registry = mainPort.obj.getEnvironment()->findProxy("Pothos/BlockRegistry");
     auto copier = registry.call("/blocks/copier");
     copier.call("setName", "DomainBridge");
@@ -92,14 +97,17 @@ static Pothos::Proxy getCopierForDomainCrossing(
  */
 static std::unordered_map<Port, std::shared_future<Pothos::Proxy>> domainInspection(
     const std::unordered_map<Port, std::vector<Port>> &ports,
+    const std::unordered_map<Port, Pothos::Proxy> &currentCopiers,
     const bool isInput
 )
 {
     std::unordered_map<Port, std::shared_future<Pothos::Proxy>> copiers;
     for (const auto &pair : ports)
     {
+        const auto it = currentCopiers.find(pair.first);
+        const auto currentCopier = (it == currentCopiers.end())? Pothos::Proxy() : it->second;
         copiers[pair.first] = std::async(std::launch::async,
-            &getCopierForDomainCrossing, pair.first, pair.second, isInput);
+            &getCopierForDomainCrossing, pair.first, pair.second, isInput, currentCopier);
     }
     return copiers;
 }
@@ -121,8 +129,8 @@ std::vector<Flow> Pothos::Topology::Impl::rectifyDomainFlows(const std::vector<F
     }
 
     //get a list of ports with domain problems
-    auto badSrcsToCopier = domainInspection(srcs, false);
-    auto badDstsToCopier = domainInspection(dsts, true);
+    auto badSrcsToCopier = domainInspection(srcs, this->srcToCopierCache, false);
+    auto badDstsToCopier = domainInspection(dsts, this->dstToCopierCache, true);
 
     std::vector<Flow> domainSafeFlows;
     for (const auto &flow : flatFlows)
@@ -130,8 +138,8 @@ std::vector<Flow> Pothos::Topology::Impl::rectifyDomainFlows(const std::vector<F
         auto srcCopier = badSrcsToCopier.at(flow.src).get();
         auto dstCopier = badDstsToCopier.at(flow.dst).get();
         Pothos::Proxy copier;
-        if (srcCopier) copier = srcCopier;
-        if (dstCopier) copier = dstCopier;
+        if (dstCopier) copier = this->dstToCopierCache[flow.dst] = dstCopier;
+        else if (srcCopier) copier = this->srcToCopierCache[flow.src] = srcCopier;
         if (copier)
         {
             //create the flows
diff --git a/lib/Framework/TopologyImpl.hpp b/lib/Framework/TopologyImpl.hpp
index d14437f..11f798c 100644
--- a/lib/Framework/TopologyImpl.hpp
+++ b/lib/Framework/TopologyImpl.hpp
@@ -31,6 +31,7 @@ struct Pothos::Topology::Impl
     std::vector<Flow> flows;
     std::vector<Flow> activeFlatFlows;
     std::unordered_map<Port, std::pair<Pothos::Proxy, Pothos::Proxy>> srcToNetgressCache;
+    std::unordered_map<Port, Pothos::Proxy> srcToCopierCache, dstToCopierCache;
     std::vector<Flow> squashFlows(const std::vector<Flow> &);
     std::vector<Flow> createNetworkFlows(const std::vector<Flow> &);
     std::vector<Flow> rectifyDomainFlows(const std::vector<Flow> &);
-- 
2.43.0


From ff02480233cb24d276632f9783850280c7c1c2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:38 +0000
Subject: [PATCH 27/28] fix: choose the buffer manager of an output from all of
 its connections

The choice looked at new connections only and at the first of them:
a custom manager was ignored or replaced by a generic one depending on
the order and time of the connections, or stayed after its owner left.
A contradiction was found after flows were changed and wedged the topology.
---
 lib/Framework/OutputPort.cpp     |  1 +
 lib/Framework/TopologyCommit.cpp | 95 ++++++++++++++++++--------------
 2 files changed, 55 insertions(+), 41 deletions(-)

diff --git a/lib/Framework/OutputPort.cpp b/lib/Framework/OutputPort.cpp
index f5fb593..34fac47 100644
--- a/lib/Framework/OutputPort.cpp
+++ b/lib/Framework/OutputPort.cpp
@@ -94,6 +94,7 @@ void Pothos::OutputPort::bufferManagerPush(Pothos::Util::SpinLock *mutex, const
 void Pothos::OutputPort::bufferManagerSetup(const Pothos::BufferManager::Sptr &manager)
 {
     std::lock_guard<Util::SpinLock> lock(_bufferManagerLock);
+    if (_bufferManager == manager) return; //already in use, its callback may be in a call
     _bufferManager = manager;
     if (manager) manager->setCallback(std::bind(
         &Pothos::OutputPort::bufferManagerPush, this, &_bufferManagerLock, std::placeholders::_1));
diff --git a/lib/Framework/TopologyCommit.cpp b/lib/Framework/TopologyCommit.cpp
index 6da5eda..70a084d 100644
--- a/lib/Framework/TopologyCommit.cpp
+++ b/lib/Framework/TopologyCommit.cpp
@@ -55,67 +55,75 @@ static void setOutputBufferManager(const Port &src, const Pothos::Proxy &manager
     src.obj.get("_actor").call("setOutputBufferManager", src.name, manager);
 }
 
-static void installBufferManagers(const std::vector<Flow> &flatFlows)
+typedef std::vector<std::pair<Port, Pothos::Proxy>> SourceManagers;
+
+//! Select the buffer manager for every source port in the changed flows that is still in use
+static SourceManagers selectBufferManagers(const std::vector<Flow> &changedFlows, const std::vector<Flow> &flatFlows)
 {
     //map of a source port to all destination ports
     std::unordered_map<Port, std::vector<Port>> srcs;
-    for (const auto &flow : flatFlows)
+    for (const auto &flow : changedFlows)
     {
+        if (srcs.count(flow.src) != 0) continue;
         for (const auto &subFlow : flatFlows)
         {
             if (subFlow.src == flow.src) srcs[flow.src].push_back(subFlow.dst);
         }
     }
 
-    //result list is used to ack all install messages
-    std::vector<FutureInfo> infoFutures;
-
-    //for each source port -- install managers
+    SourceManagers managers;
     for (const auto &pair : srcs)
     {
-        auto src = pair.first;
-        auto dsts = pair.second;
-        auto dst = dsts.at(0);
-        Pothos::Proxy manager;
+        const auto &src = pair.first;
+        const auto &dsts = pair.second;
+        const std::string srcDomain = src.obj.call("output", src.name).call("domain");
 
-        std::string srcDomain = src.obj.call("output", src.name).call("domain");
-        std::string dstDomain = dst.obj.call("input", dst.name).call("domain");
-
-        auto srcMode = getBufferMode(src, dstDomain, false);
-        auto dstMode = getBufferMode(dst, srcDomain, true);
-
-        //check if the source provides a manager and install it to the source
-        if (srcMode == "CUSTOM")
+        //check if the source provides a manager for any of its destinations
+        Pothos::Proxy manager;
+        std::vector<std::string> dstDomains;
+        for (const auto &dst : dsts)
         {
-            manager = getBufferManager(src, dstDomain, false);
+            dstDomains.push_back(dst.obj.call("input", dst.name).call("domain"));
+            if (not manager and getBufferMode(src, dstDomains.back(), false) == "CUSTOM")
+            {
+                manager = getBufferManager(src, dstDomains.back(), false);
+            }
         }
 
-        //check if the destination provides a manager and install it to the source
-        else if (dstMode == "CUSTOM")
+        //otherwise check if a destination provides a manager, a specific domain comes first
+        if (not manager)
         {
-            for (const auto &otherDst : dsts)
+            size_t customDst = dsts.size();
+            for (size_t i = 0; i < dsts.size(); i++)
             {
-                if (otherDst == dst) continue;
-                std::string otherDstDomain = otherDst.obj.call("input", otherDst.name).call("domain");
-                if (getBufferMode(otherDst, srcDomain, true) != "ABDICATE" and not otherDstDomain.empty())
-                {
-                    throw Pothos::Exception("Pothos::Topology::installBufferManagers", Poco::format("%s->%s\n"
-                        "rectifyDomainFlows() logic does not /yet/ handle multiple destinations w/ custom buffer managers",
-                        src.toString(), otherDst.toString()));
-                }
+                if (getBufferMode(dsts[i], srcDomain, true) != "CUSTOM") continue;
+                if (customDst == dsts.size() or dstDomains[customDst].empty()) customDst = i;
+                else if (not dstDomains[i].empty()) throw Pothos::TopologyConnectError(
+                    "Pothos::Topology::installBufferManagers", Poco::format("%s->%s\n"
+                    "rectifyDomainFlows() logic does not /yet/ handle multiple destinations w/ custom buffer managers",
+                    src.toString(), dsts[i].toString()));
             }
-            manager = getBufferManager(dst, srcDomain, true);
+            if (customDst != dsts.size()) manager = getBufferManager(dsts[customDst], srcDomain, true);
         }
 
-        //otherwise create a generic manager and install it to the source
-        else
-        {
-            assert(srcMode == "ABDICATE"); //this must be true if the previous logic was good
-            assert(dstMode == "ABDICATE");
-            manager = getBufferManager(src, dstDomain, false);
-        }
+        //otherwise create a generic manager for the source
+        if (not manager) manager = getBufferManager(src, dstDomains.at(0), false);
 
-        std::shared_future<void> result(std::async(std::launch::async, setOutputBufferManager, src, manager));
+        managers.push_back(std::make_pair(src, manager));
+    }
+    return managers;
+}
+
+static void installBufferManagers(const SourceManagers &managers)
+{
+    //result list is used to ack all install messages
+    std::vector<FutureInfo> infoFutures;
+
+    //for each source port -- install managers
+    for (const auto &pair : managers)
+    {
+        const auto &src = pair.first;
+        std::shared_future<void> result(std::async(std::launch::async, setOutputBufferManager, src, pair.second));
         infoFutures.push_back(FutureInfo(Poco::format("setOutputBufferManager(%s)", src.name), src.obj, result));
     }
 
@@ -228,15 +236,20 @@ void topologySubCommit(Pothos::Topology &topology)
         if (std::find(flatFlows.begin(), flatFlows.end(), flow) == flatFlows.end()) oldFlows.push_back(flow);
     }
 
+    //select buffer managers for all sources with changed flows (before changing anything, this may throw)
+    auto changedFlows = newFlows;
+    changedFlows.insert(changedFlows.end(), oldFlows.begin(), oldFlows.end());
+    const auto managers = selectBufferManagers(changedFlows, flatFlows);
+
     //add new data acceptors
     updateFlows(newFlows, "add");
 
     //remove old data acceptors
     updateFlows(oldFlows, "remove");
 
-    //install buffer managers on sources for all new flows
+    //install buffer managers on sources for all changed flows
     //Sometimes this will replace previous buffer managers.
-    installBufferManagers(newFlows);
+    installBufferManagers(managers);
 
     //result list is used to ack all de/activate messages
     std::vector<FutureInfo> infoFutures;
-- 
2.43.0


From deaa893ec40bcb5d34954b1683d0c5019b6d5091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:02 +0000
Subject: [PATCH 28/28] fix: two copiers never share the custom buffer manager
 of a destination

---
 lib/Framework/TopologyDomainFlows.cpp | 35 +++++++++++++++++++++------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/lib/Framework/TopologyDomainFlows.cpp b/lib/Framework/TopologyDomainFlows.cpp
index db5345c..55c947d 100644
--- a/lib/Framework/TopologyDomainFlows.cpp
+++ b/lib/Framework/TopologyDomainFlows.cpp
@@ -70,6 +70,18 @@ static bool isDomainCrossingAcceptable(
     return true;
 }
 
+/*!
+ * Get the copier block for a port: keep the one from the previous commit so the data inside is not lost.
+ */
+static Pothos::Proxy getCopier(const Port &mainPort, const Pothos::Proxy &currentCopier)
+{
+    if (currentCopier) return currentCopier;
+    auto registry = mainPort.obj.getEnvironment()->findProxy("Pothos/BlockRegistry");
+    auto copier = registry.call("/blocks/copier");
+    copier.call("setName", "DomainBridge");
+    return copier;
+}
+
 /*!
  * Get a copier block for a domain crossing between mainPort and all connected subPorts.
  * If the copier block is not needed to handle this domain crossing, return a null Proxy.
@@ -82,14 +94,7 @@ static Pothos::Proxy getCopierForDomainCrossing(
 )
 {
     if (isDomainCrossingAcceptable(mainPort, subPorts, isInput)) return Pothos::Proxy();
-
-    //keep the copier from the previous commit so the data inside is not lost
-    if (currentCopier) return currentCopier;
-
-    auto registry = mainPort.obj.getEnvironment()->findProxy("Pothos/BlockRegistry");
-    auto copier = registry.call("/blocks/copier");
-    copier.call("setName", "DomainBridge");
-    return copier;
+    return getCopier(mainPort, currentCopier);
 }
 
 /*!
@@ -132,6 +137,20 @@ std::vector<Flow> Pothos::Topology::Impl::rectifyDomainFlows(const std::vector<F
     auto badSrcsToCopier = domainInspection(srcs, this->srcToCopierCache, false);
     auto badDstsToCopier = domainInspection(dsts, this->dstToCopierCache, true);
 
+    //A copier may not share the custom manager of a destination with another upstream port:
+    //give such a destination a copier of its own that connects directly to every upstream port.
+    for (const auto &pair : dsts)
+    {
+        if (pair.second.size() == 1 or badDstsToCopier.at(pair.first).get()) continue;
+        const bool upstreamCopier = std::any_of(pair.second.begin(), pair.second.end(),
+            [&badSrcsToCopier](const Port &src){return bool(badSrcsToCopier.at(src).get());});
+        if (not upstreamCopier or getBufferMode(pair.first, "", true) != "CUSTOM") continue;
+        std::promise<Pothos::Proxy> copier;
+        const auto it = this->dstToCopierCache.find(pair.first);
+        copier.set_value(getCopier(pair.first, (it == this->dstToCopierCache.end())? Pothos::Proxy() : it->second));
+        badDstsToCopier[pair.first] = copier.get_future();
+    }
+
     std::vector<Flow> domainSafeFlows;
     for (const auto &flow : flatFlows)
     {
-- 
2.43.0

