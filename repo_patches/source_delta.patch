From c9484364fbc4afd32ea9cc33cbd4d85723aa305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 01/79] fix: keep idle qubits that precede used ones when
 applying an ECC

Stripping an idle qubit in front of or between used qubits shrank the qubit
count without renumbering the remaining qubits, so gates were written to
positions outside of (or overlapping in) the encoded register and dumping the
result could crash.
---
 src/ecc/Ecc.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ecc/Ecc.cpp b/src/ecc/Ecc.cpp
index 2a1a168..82dacbd 100644
--- a/src/ecc/Ecc.cpp
+++ b/src/ecc/Ecc.cpp
@@ -7,7 +7,15 @@
 
 namespace ecc {
 void Ecc::initMappedCircuit() {
-    qcOriginal->stripIdleQubits(true, false);
+    // Only trailing idle qubits may be dropped: removing a qubit in between would not renumber the remaining ones, whose
+    // indices determine the positions of the encoded qubits.
+    while (qcOriginal->getNqubits() > 0) {
+        const auto last = static_cast<Qubit>(qcOriginal->getNqubits() - 1);
+        if (!qcOriginal->isIdleQubit(last)) {
+            break;
+        }
+        qcOriginal->removeQubit(qcOriginal->initialLayout.at(last));
+    }
     qcMapped->addQubitRegister(getNOutputQubits(qcOriginal->getNqubits()));
     auto cRegs = qcOriginal->getCregs();
     for (auto const& [regName, regBits] : cRegs) {
-- 
2.43.0


From 569a3729ebbb33f0ff8366aebc5b144c64688cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 02/79] fix: preserve the order of classical registers when
 applying an ECC

The registers were re-added in the (reverse alphabetical) order of the register
map, while measurements address classical bits by their global index.
---
 src/ecc/Ecc.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ecc/Ecc.cpp b/src/ecc/Ecc.cpp
index 82dacbd..889f527 100644
--- a/src/ecc/Ecc.cpp
+++ b/src/ecc/Ecc.cpp
@@ -3,7 +3,10 @@
 #include "ir/QuantumComputation.hpp"
 
 #include <cstddef>
+#include <map>
 #include <memory>
+#include <string>
+#include <utility>
 
 namespace ecc {
 void Ecc::initMappedCircuit() {
@@ -17,9 +20,13 @@ void Ecc::initMappedCircuit() {
         qcOriginal->removeQubit(qcOriginal->initialLayout.at(last));
     }
     qcMapped->addQubitRegister(getNOutputQubits(qcOriginal->getNqubits()));
-    auto cRegs = qcOriginal->getCregs();
-    for (auto const& [regName, regBits] : cRegs) {
-        qcMapped->addClassicalRegister(regBits.second, regName);
+    // keep the order of the classical registers, since bits are addressed by their index over all registers
+    std::map<std::size_t, std::pair<std::size_t, std::string>> cRegs{};
+    for (auto const& [regName, regBits] : qcOriginal->getCregs()) {
+        cRegs.try_emplace(regBits.first, regBits.second, regName);
+    }
+    for (auto const& [start, reg] : cRegs) {
+        qcMapped->addClassicalRegister(reg.first, reg.second);
     }
     for (auto const& [regBits, regName] : ecc.classicalRegisters) {
         qcMapped->addClassicalRegister(regBits, regName);
-- 
2.43.0


From 52219fc782a8aecab3a8f88cd2130a4693eee401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 03/79] fix: measure the right qubit into the right classical
 bit in Q5Laflamme and Q7Steane

Targets and classical bits of the measurement were interchanged, so circuits
measuring qubit i into bit j != i read out the wrong (or a redundant) qubit.
---
 src/ecc/Q5Laflamme.cpp |  4 ++--
 src/ecc/Q7Steane.cpp   | 13 ++-----------
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/ecc/Q5Laflamme.cpp b/src/ecc/Q5Laflamme.cpp
index 1e40ef5..8ddcf0d 100644
--- a/src/ecc/Q5Laflamme.cpp
+++ b/src/ecc/Q5Laflamme.cpp
@@ -161,8 +161,8 @@ void Q5Laflamme::mapGate(const qc::Operation& gate) {
         if (const auto* measureGate =
                     dynamic_cast<const qc::NonUnitaryOperation*>(&gate)) {
             for (std::size_t j = 0; j < measureGate->getNclassics(); j++) {
-                qcMapped->measure(static_cast<Qubit>(measureGate->getClassics().at(j)),
-                                  measureGate->getTargets().at(j));
+                qcMapped->measure(measureGate->getTargets().at(j),
+                                  measureGate->getClassics().at(j));
             }
         } else {
             throw std::runtime_error("Dynamic cast to NonUnitaryOperation failed.");
diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 6eb077b..9907cbf 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -205,17 +205,8 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
         if (const auto* measureGate =
                     dynamic_cast<const qc::NonUnitaryOperation*>(&gate)) {
             for (std::size_t j = 0; j < measureGate->getNclassics(); j++) {
-                auto classicalRegisterName =
-                        qcOriginal->getClassicalRegister(measureGate->getTargets().at(j));
-                if (!classicalRegisterName.empty()) {
-                    qcMapped->measure(
-                            static_cast<Qubit>(measureGate->getClassics().at(j)),
-                            {classicalRegisterName, measureGate->getTargets().at(j)});
-                } else {
-                    qcMapped->measure(
-                            static_cast<Qubit>(measureGate->getClassics().at(j)),
-                            measureGate->getTargets().at(j));
-                }
+                qcMapped->measure(measureGate->getTargets().at(j),
+                                  measureGate->getClassics().at(j));
             }
         } else {
             throw std::runtime_error("Dynamic cast to NonUnitaryOperation failed.");
-- 
2.43.0


From 14abd2705c9a31076eeb024678c003ecea809d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 04/79] fix: reset the ancilla before encoding each logical
 qubit in Q5Laflamme

The ancilla measuring the logical Z was only reset before the first logical
qubit, so every further qubit could be initialized in the wrong state.
---
 src/ecc/Q5Laflamme.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/ecc/Q5Laflamme.cpp b/src/ecc/Q5Laflamme.cpp
index 8ddcf0d..2333f16 100644
--- a/src/ecc/Q5Laflamme.cpp
+++ b/src/ecc/Q5Laflamme.cpp
@@ -22,9 +22,6 @@ void Q5Laflamme::writeEncoding() {
 
     for (Qubit i = 0; i < nQubits; i++) {
         qcMapped->reset(ancStart);
-    }
-
-    for (Qubit i = 0; i < nQubits; i++) {
         qcMapped->h(ancStart);
         for (std::size_t j = 0; j < ecc.nRedundantQubits; j++) {
             qcMapped->cz(ancStart, static_cast<Qubit>(i + j * nQubits));
-- 
2.43.0


From f04938804458bd2d1c1bd1b6c6143ab2abc30896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 05/79] fix: do not overwrite classical bits of the circuit
 when decoding surface codes

Decoding measured logical qubit i into bit i, although the circuit may use that
bit for another qubit or not at all.
---
 src/ecc/Q18Surface.cpp |  5 +++--
 src/ecc/Q9Surface.cpp  | 12 +++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/ecc/Q18Surface.cpp b/src/ecc/Q18Surface.cpp
index ff44ba5..47ac972 100644
--- a/src/ecc/Q18Surface.cpp
+++ b/src/ecc/Q18Surface.cpp
@@ -72,14 +72,15 @@ void Q18Surface::writeDecoding() {
     if (isDecoded) {
         return;
     }
-    const auto nQubits = qcOriginal->getNqubits();
+    const auto nQubits    = qcOriginal->getNqubits();
+    const auto clAncStart = qcOriginal->getNcbits();
     for (Qubit i = 0; i < nQubits; i++) {
         qcMapped->reset(static_cast<Qubit>(i + X_INFORMATION * nQubits));
         for (const Qubit qubit : ANCILLA_QUBITS_DECODE) {
             qcMapped->cx(static_cast<Qubit>(i + qubit * nQubits),
                          static_cast<Qubit>(i + X_INFORMATION * nQubits));
         }
-        qcMapped->measure(static_cast<Qubit>(i + X_INFORMATION * nQubits), i);
+        qcMapped->measure(static_cast<Qubit>(i + X_INFORMATION * nQubits), clAncStart);
         qcMapped->reset(i);
         qcMapped->cx(static_cast<Qubit>(i + X_INFORMATION * nQubits), i);
     }
diff --git a/src/ecc/Q9Surface.cpp b/src/ecc/Q9Surface.cpp
index 4322450..90becbc 100644
--- a/src/ecc/Q9Surface.cpp
+++ b/src/ecc/Q9Surface.cpp
@@ -104,15 +104,17 @@ void Q9Surface::writeDecoding() {
     if (isDecoded) {
         return;
     }
-    const auto nQubits = qcOriginal->getNqubits();
+    const auto nQubits    = qcOriginal->getNqubits();
+    const auto clAncStart = qcOriginal->getNcbits();
     for (std::size_t i = 0; i < nQubits; i++) {
         // measure 0, 4, 8. state = m0*m4*m8
-        qcMapped->measure(static_cast<Qubit>(i), i);
-        qcMapped->measure(static_cast<Qubit>(i + 4 * nQubits), i);
-        qcMapped->measure(static_cast<Qubit>(i + 8 * nQubits), i);
+        // (into an ancillary bit: the bits of the original circuit only hold the results of its own measurements)
+        qcMapped->measure(static_cast<Qubit>(i), clAncStart);
+        qcMapped->measure(static_cast<Qubit>(i + 4 * nQubits), clAncStart);
+        qcMapped->measure(static_cast<Qubit>(i + 8 * nQubits), clAncStart);
         qcMapped->cx(static_cast<Qubit>(i + 4 * nQubits), static_cast<Qubit>(i));
         qcMapped->cx(static_cast<Qubit>(i + 8 * nQubits), static_cast<Qubit>(i));
-        qcMapped->measure(static_cast<Qubit>(i), i);
+        qcMapped->measure(static_cast<Qubit>(i), clAncStart);
     }
     isDecoded = true;
 }
-- 
2.43.0


From c451fbe468c2edf0bebed79efee5410d5e18c512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 06/79] fix: rotate the lattice for the logical Hadamard of
 Q9Surface

The swaps following the transversal Hadamard did not map the X-type checks onto
the Z-type checks, so any error correction between two Hadamards destroyed the
logical state.
---
 include/ecc/Q9Surface.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ecc/Q9Surface.hpp b/include/ecc/Q9Surface.hpp
index 77c537c..9759a50 100644
--- a/include/ecc/Q9Surface.hpp
+++ b/include/ecc/Q9Surface.hpp
@@ -47,7 +47,8 @@ private:
     std::set<Qubit>                                         uncorrectedZQubits = {0, 8};
     static constexpr std::array<Qubit, 3>                   LOGICAL_X          = {2, 4, 6};
     static constexpr std::array<Qubit, 3>                   LOGICAL_Z          = {0, 4, 8};
-    static constexpr std::array<std::pair<Qubit, Qubit>, 4> SWAP_INDICES       = {
-            {{0, 6}, {3, 7}, {2, 8}, {1, 5}}};
+    // applied in this order: rotation of the lattice by 90 degrees, which maps X-type checks onto Z-type checks
+    static constexpr std::array<std::pair<Qubit, Qubit>, 6> SWAP_INDICES       = {
+            {{0, 2}, {0, 8}, {0, 6}, {1, 5}, {1, 7}, {1, 3}}};
 };
 } // namespace ecc
-- 
2.43.0


From 27016f443dc15aebd70ef5db9f54b887836a9cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 07/79] fix: reject controlled gates that Q7Steane and Q9Shor
 cannot encode

Controlled Hadamard, controlled S and multi-controlled gates were applied
qubit-wise although they are not transversal, which silently yielded a circuit
computing something else. They are reported as not available instead.
---
 src/ecc/Q7Steane.cpp | 9 +++++++++
 src/ecc/Q9Shor.cpp   | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 9907cbf..89446b4 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -172,6 +172,11 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
     case qc::H:
     case qc::Y:
     case qc::Z:
+        // only singly controlled Pauli gates are transversal
+        if (gate.getNcontrols() > 1U ||
+            (gate.getNcontrols() == 1U && gate.getType() == qc::H)) {
+            gateNotAvailableError(gate);
+        }
         for (auto i : gate.getTargets()) {
             if (gate.getNcontrols() != 0U) {
                 const auto& ctrls = gate.getControls();
@@ -195,6 +200,10 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
         // locigal S = 3 physical S's
     case qc::S:
     case qc::Sdg:
+        // controlled S gates are not transversal
+        if (gate.getNcontrols() != 0U) {
+            gateNotAvailableError(gate);
+        }
         addSOperation(gate.getControls(), gate.getTargets(), gate.getType());
         break;
     case qc::Measure:
diff --git a/src/ecc/Q9Shor.cpp b/src/ecc/Q9Shor.cpp
index 4ba521c..5e3c0f3 100644
--- a/src/ecc/Q9Shor.cpp
+++ b/src/ecc/Q9Shor.cpp
@@ -182,6 +182,10 @@ void Q9Shor::mapGate(const qc::Operation& gate) {
     default:
         gateNotAvailableError(gate);
     }
+    // only singly controlled Pauli gates are transversal
+    if (gate.getNcontrols() > 1U) {
+        gateNotAvailableError(gate);
+    }
     for (std::size_t t = 0; t < gate.getNtargets(); t++) {
         auto i = gate.getTargets()[t];
 
-- 
2.43.0


From 3bdd3df452b742d1f89da27efe1a48b7e251d2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 08/79] fix: do not swap hX and hZ nor lose k and d when
 setting a decoder's code

---
 include/Decoder.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/Decoder.hpp b/include/Decoder.hpp
index 6973f8a..6df957d 100644
--- a/include/Decoder.hpp
+++ b/include/Decoder.hpp
@@ -88,8 +88,10 @@ public:
         if (c.gethX() == nullptr) {
             this->code = std::make_unique<Code>(*c.gethZ()->pcm);
         } else {
-            this->code = std::make_unique<Code>(*c.gethZ()->pcm, *c.gethX()->pcm);
+            this->code = std::make_unique<Code>(*c.gethX()->pcm, *c.gethZ()->pcm);
         }
+        this->code->k = c.k;
+        this->code->d = c.d;
     }
     virtual void reset() {};
 };
-- 
2.43.0


From e785fa465135f5300d8978dbb0746e992f737710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 09/79] fix: visit every node when computing connected
 components in UFDecoder

---
 src/UFDecoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 6f57938..474f42b 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -316,8 +316,8 @@ UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
 
             std::queue<std::size_t> stack;
             stack.push(c);
-            while (!stack.empty()) { // use DFS-like algorithm to compute connected component containing node 'c'
-                auto curr = stack.back();
+            while (!stack.empty()) { // use BFS-like algorithm to compute connected component containing node 'c'
+                auto curr = stack.front();
                 stack.pop();
                 if (ccomp.find(curr) == ccomp.end()) {
                     ccomp.insert(curr);
-- 
2.43.0


From acebc97579eae5eff3b7618092b838c8d4995fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 10/79] fix: restrict the estimate of UFDecoder to the interior
 of each cluster

---
 src/UFDecoder.cpp | 57 +++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 474f42b..9a18812 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -170,48 +170,51 @@ std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::siz
         return {};
     }
 
-    gf2Mat            redHz;
-    gf2Vec            redSyndr(0);
-    std::vector<bool> used(pcm->pcm->size());
+    const auto nrBits   = getCode()->getN();
+    const auto interior = computeInteriorBitNodes(nodeSet);
 
+    // only bits in the interior may be part of the estimate: all of their checks are in the component, so flipping them
+    // does not affect any check outside of it
+    gf2Mat redHz;
+    gf2Vec redSyndr(0);
     for (const auto it : nodeSet) {
-        if (it >= getCode()->getN()) { // is a check node
-            if (!used.at(it - getCode()->getN())) {
-                redHz.emplace_back(pcm->pcm->at(it - getCode()->getN()));
-                used.at(it - getCode()->getN()) = true;
-                if (syndrome.find(it - getCode()->getN()) != syndrome.end()) {
-                    redSyndr.emplace_back(1); // If the check node is in the syndrome we need to satisfy check=1
-                } else {
-                    redSyndr.emplace_back(0);
-                }
-            }
-        } else { // is a bit node
-            const auto nbrs = this->getCode()->gethZ()->getNbrs(it);
-            for (auto n : nbrs) { // add neighbouring checks (these are maybe not in the interior but to stay consistent with the syndrome we need to include these in the check)
-                if (!used.at(n - getCode()->getN())) {
-                    redHz.emplace_back(pcm->pcm->at(n - getCode()->getN()));
-                    if (syndrome.find(n) != syndrome.end()) {
-                        redSyndr.emplace_back(1);
-                    } else {
-                        redSyndr.emplace_back(0);
-                    }
-                    used.at(n - getCode()->getN()) = true;
-                }
+        if (it >= nrBits) { // is a check node
+            const auto& check = pcm->pcm->at(it - nrBits);
+            gf2Vec      row;
+            row.reserve(interior.size());
+            for (const auto bit : interior) {
+                row.emplace_back(check.at(bit));
             }
+            redHz.emplace_back(std::move(row));
+            redSyndr.emplace_back(syndrome.find(it) != syndrome.end()); // If the check node is in the syndrome we need to satisfy check=1
         }
     }
+    if (redHz.empty()) {
+        return {};
+    }
     auto                  redHzCsc = Utils::toCsc(redHz);
     std::vector<uint64_t> redSyndInt(redSyndr.size());
     for (std::size_t i = 0; i < redSyndr.size(); i++) {
         redSyndInt.at(i) = redSyndr.at(i) ? 1 : 0;
     }
     auto pluDec = PluDecomposition(redHz.size(), redHz.at(0).size(), redHzCsc);
-    auto estim  = pluDec.luSolve(redSyndInt); // solves the system redHz*x=redSyndr by x to see if a solution can be found
+    auto estim  = pluDec.luSolve(redSyndInt); // solves the system redHz*x=redSyndr by x
+
+    // the solver assumes that there is a solution, check that the result is one
+    for (std::size_t i = 0; i < redHz.size(); i++) {
+        bool parity = false;
+        for (std::size_t j = 0; j < estim.size(); j++) {
+            parity = parity != (redHz.at(i).at(j) && estim.at(j) != 0U);
+        }
+        if (parity != redSyndr.at(i)) {
+            return {};
+        }
+    }
 
     std::set<std::size_t> res;
     for (std::size_t i = 0; i < estim.size(); i++) {
         if (estim.at(i) != 0U) {
-            res.emplace(i);
+            res.emplace(interior.at(i));
         }
     }
     return res;
-- 
2.43.0


From 4f1bccfed5eb07ca24f454723fb42056fe940036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 11/79] fix: do not count bits outside a cluster as covering
 its checks in UFHeuristic

---
 src/UFHeuristic.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index 64cf917..b7d1d32 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -348,7 +348,9 @@ bool UFHeuristic::isValidComponent(const std::size_t& compId, const std::unique_
     for (const auto& checkVertex : compNode->checkVertices) {
         const auto& nbrs = pcm->getNbrs(checkVertex);
         for (const auto& nbr : nbrs) {
-            if (compNode->boundaryVertices.find(nbr) == compNode->boundaryVertices.end()) {
+            // a neighbour that has not been added to the component yet does not cover the check
+            if (compNode->boundaryVertices.find(nbr) == compNode->boundaryVertices.end() &&
+                TreeNode::Find(getNodeFromIdx(nbr))->vertexIdx == compNode->vertexIdx) {
                 valid.at(i) = true;
                 break;
             }
-- 
2.43.0


From 3197c13382fe87f5050bd6f9374a7b42092c4c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 12/79] fix: forget the clusters of earlier syndromes when
 decoding with UFHeuristic

---
 include/UFHeuristic.hpp | 1 +
 src/UFHeuristic.cpp     | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/UFHeuristic.hpp b/include/UFHeuristic.hpp
index a05a2aa..6175a05 100644
--- a/include/UFHeuristic.hpp
+++ b/include/UFHeuristic.hpp
@@ -36,6 +36,7 @@ private:
     // do not call.at only getNodeFromIdx()
     std::unordered_map<std::size_t, std::unique_ptr<TreeNode>> nodeMap;
     TreeNode*                                                  getNodeFromIdx(std::size_t idx);
+    void                                                       clearNodes();
     void                                                       standardGrowth(std::vector<std::pair<std::size_t, std::size_t>>& fusionEdges,
                                                                               std::unordered_map<std::size_t, bool>& presentMap, const std::unordered_set<std::size_t>& components, const std::unique_ptr<ParityCheckMatrix>& pcm);
     void                                                       singleClusterRandomFirstGrowth(std::vector<std::pair<std::size_t, std::size_t>>& fusionEdges,
diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index b7d1d32..597576a 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -69,6 +69,7 @@ void UFHeuristic::decode(const gf2Vec& syndrome) {
 void UFHeuristic::doDecoding(const gf2Vec& syndrome, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     auto                     decodingTimeBegin = std::chrono::high_resolution_clock::now();
     std::vector<std::size_t> res;
+    clearNodes(); // clusters of previously decoded syndromes must not influence this run
     if (!syndrome.empty() && !std::all_of(syndrome.begin(), syndrome.end(), [](bool val) { return !val; })) {
         auto                            syndrComponents   = computeInitTreeComponents(syndrome);
         auto                            invalidComponents = syndrComponents;
@@ -376,7 +377,7 @@ TreeNode* UFHeuristic::getNodeFromIdx(const std::size_t idx) {
     return ins.first->second.get();
 }
 
-void UFHeuristic::reset() {
+void UFHeuristic::clearNodes() {
     for (auto& n : nodeMap) {
         for (auto& c : n.second->children) {
             c = nullptr;
@@ -386,6 +387,10 @@ void UFHeuristic::reset() {
         n.second.reset();
     }
     nodeMap.clear();
+}
+
+void UFHeuristic::reset() {
+    clearNodes();
     this->result = {};
     this->growth = GrowthVariant::AllComponents;
     this->getCode()->gethZ()->nbrCache.clear();
-- 
2.43.0


From 15d548697177cf704cfd849e7923578690ce442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 13/79] fix: decode two-sided syndromes with the matrix and
 order of each side

---
 include/UFDecoder.hpp | 12 ++++----
 src/UFDecoder.cpp     | 64 ++++++++++++++++++++++---------------------
 src/UFHeuristic.cpp   | 20 ++++++++------
 3 files changed, 51 insertions(+), 45 deletions(-)

diff --git a/include/UFDecoder.hpp b/include/UFDecoder.hpp
index d957791..682886b 100644
--- a/include/UFDecoder.hpp
+++ b/include/UFDecoder.hpp
@@ -19,12 +19,12 @@ private:
     [[nodiscard]] bool                               isValidComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     bool                                             containsInvalidComponents(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
                                                                                std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
-    [[nodiscard]] std::vector<std::size_t>           computeInteriorBitNodes(const std::set<std::size_t>& nodeSet) const;
+    [[nodiscard]] std::vector<std::size_t>           computeInteriorBitNodes(const std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     [[nodiscard]] std::set<std::size_t>              getEstimateForComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
                                                                              const std::unique_ptr<ParityCheckMatrix>& pcm) const;
-    void                                             standardGrowth(std::set<std::size_t>& comps);
-    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet);
-    void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet);
-    void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps);
-    [[nodiscard]] std::vector<std::set<std::size_t>> getConnectedComps(const std::set<std::size_t>& nodes) const;
+    void                                             standardGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    [[nodiscard]] std::vector<std::set<std::size_t>> getConnectedComps(const std::set<std::size_t>& nodes, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
 };
diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 9a18812..888d69a 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -25,18 +25,20 @@ void UFDecoder::decode(const gf2Vec& syndrome) {
     if (syndrome.size() > this->getCode()->gethZ()->pcm->size()) {
         std::vector<bool> xSyndr;
         std::vector<bool> zSyndr;
-        auto              mid = syndrome.begin() + (static_cast<std::int64_t>(syndrome.size()) / 2U);
+        auto              mid = syndrome.begin() + static_cast<std::int64_t>(this->getCode()->gethZ()->pcm->size());
         std::move(syndrome.begin(), mid, std::back_inserter(xSyndr));
         std::move(mid, syndrome.end(), std::back_inserter(zSyndr));
+        // same convention as for errors and syndromes: the X part comes first, followed by the Z part
         doDecode(xSyndr, this->getCode()->gethZ());
-        auto xres = this->result;
-        this->reset();
+        auto xres = std::move(this->result);
         doDecode(zSyndr, this->getCode()->gethX());
-        this->result.decodingTime += xres.decodingTime;
-        std::move(xres.estimBoolVector.begin(), xres.estimBoolVector.end(),
-                  std::back_inserter(this->result.estimBoolVector));
-        std::move(xres.estimNodeIdxVector.begin(), xres.estimNodeIdxVector.end(),
-                  std::back_inserter(this->result.estimNodeIdxVector));
+        const auto zres = std::move(this->result);
+        xres.decodingTime += zres.decodingTime;
+        xres.estimBoolVector.insert(xres.estimBoolVector.end(), zres.estimBoolVector.begin(), zres.estimBoolVector.end());
+        for (const auto idx : zres.estimNodeIdxVector) {
+            xres.estimNodeIdxVector.emplace_back(getCode()->getN() + idx);
+        }
+        this->result = std::move(xres);
     } else {
         this->doDecode(syndrome, getCode()->gethZ()); // X errs per default if single sided
     }
@@ -63,18 +65,18 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
                components.size() < (pcm->pcm->size() + pcm->pcm->front().size())) {
             if (this->growth == GrowthVariant::AllComponents) {
                 // // grow all components (including valid ones) by 1
-                standardGrowth(components);
+                standardGrowth(components, pcm);
             } else if (this->growth == GrowthVariant::InvalidComponents) {
                 // not implemented yet
             } else if (this->growth == GrowthVariant::SingleSmallest) {
                 // grow only by neighbours of single smallest cluster
-                singleClusterSmallestFirstGrowth(components);
+                singleClusterSmallestFirstGrowth(components, pcm);
             } else if (this->growth == GrowthVariant::SingleRandom) {
                 // grow only by neighbours of single random cluster
-                singleClusterRandomFirstGrowth(components);
+                singleClusterRandomFirstGrowth(components, pcm);
             } else if (this->growth == GrowthVariant::SingleQubitRandom) {
                 // grow only by neighbours of single qubit
-                singleQubitRandomFirstGrowth(components);
+                singleQubitRandomFirstGrowth(components, pcm);
             } else {
                 throw std::invalid_argument("Unsupported growth variant");
             }
@@ -82,7 +84,7 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
     }
 
     std::vector<std::set<std::size_t>> estims;
-    auto                               ccomps = getConnectedComps(components);
+    auto                               ccomps = getConnectedComps(components, pcm);
     for (const auto& comp : ccomps) {
         auto compEstimate = getEstimateForComponent(comp, syndr, pcm);
         estims.emplace_back(compEstimate.begin(), compEstimate.end());
@@ -114,7 +116,7 @@ bool UFDecoder::containsInvalidComponents(const std::set<std::size_t>&
                                           const std::set<std::size_t>&              syndrome,
                                           std::vector<std::set<std::size_t>>&       invalidComps,
                                           const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    auto ccomps = getConnectedComps(nodeSet);
+    auto ccomps = getConnectedComps(nodeSet, pcm);
     return std::any_of(ccomps.begin(), ccomps.end(), [&](const auto& comp) {
         bool const res = isValidComponent(comp, syndrome, pcm);
         if (!res) {
@@ -142,11 +144,11 @@ bool UFDecoder::isValidComponent(const std::set<std::size_t>&              nodeS
  * @param nodeSet
  * @return
  */
-std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::size_t>& nodeSet) const {
+std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) const {
     std::vector<std::size_t> res;
 
     for (const auto idx : nodeSet) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(idx);
+        const auto& nbrs = pcm->getNbrs(idx);
         if (idx < getCode()->getN() && std::includes(nodeSet.begin(), nodeSet.end(), nbrs.begin(), nbrs.end())) {
             res.emplace_back(idx);
         }
@@ -166,12 +168,12 @@ std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::
 std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::size_t>&              nodeSet,
                                                          const std::set<std::size_t>&              syndrome,
                                                          const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    if (computeInteriorBitNodes(nodeSet).empty()) {
+    if (computeInteriorBitNodes(nodeSet, pcm).empty()) {
         return {};
     }
 
     const auto nrBits   = getCode()->getN();
-    const auto interior = computeInteriorBitNodes(nodeSet);
+    const auto interior = computeInteriorBitNodes(nodeSet, pcm);
 
     // only bits in the interior may be part of the estimate: all of their checks are in the component, so flipping them
     // does not affect any check outside of it
@@ -224,9 +226,9 @@ std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::siz
  * Grows the node set by the neighbours of ALL clusters
  * @param comps
  */
-void UFDecoder::standardGrowth(std::set<std::size_t>& comps) {
+void UFDecoder::standardGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     for (auto currCompIt = comps.begin(); currCompIt != comps.end(); currCompIt++) {
-        const auto nbrs = getCode()->gethZ()->getNbrs(*currCompIt);
+        const auto nbrs = pcm->getNbrs(*currCompIt);
         for (auto n : nbrs) {
             comps.insert(n);
         }
@@ -237,8 +239,8 @@ void UFDecoder::standardGrowth(std::set<std::size_t>& comps) {
  * Grows the node set by the neighbours of the single smallest cluster
  * @param nodeSet
  */
-void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet) {
-    auto                  ccomps = getConnectedComps(nodeSet);
+void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    auto                  ccomps = getConnectedComps(nodeSet, pcm);
     std::set<std::size_t> smallestComponent;
     std::size_t           smallestSize = SIZE_MAX;
     for (const auto& cId : ccomps) {
@@ -249,7 +251,7 @@ void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet)
     }
 
     for (auto node : smallestComponent) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(node);
+        const auto& nbrs = pcm->getNbrs(node);
         nodeSet.insert(nbrs.begin(), nbrs.end());
     }
 }
@@ -258,8 +260,8 @@ void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet)
  * Grows the node set by the neighbours of a single random cluster
  * @param nodeSet
  */
-void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet) {
-    auto                          ccomps = getConnectedComps(nodeSet);
+void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    auto                          ccomps = getConnectedComps(nodeSet, pcm);
     std::set<std::size_t>         chosenComponent;
     std::random_device            rd;
     std::mt19937                  gen(rd());
@@ -270,7 +272,7 @@ void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet) {
     chosenComponent = *it;
 
     for (auto node : chosenComponent) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(node);
+        const auto& nbrs = pcm->getNbrs(node);
         nodeSet.insert(nbrs.begin(), nbrs.end());
     }
 }
@@ -287,8 +289,8 @@ void UFDecoder::reset() {
  * Grows the node set by the neighbours of a single random qubit
  * @param comps
  */
-void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
-    auto                          ccomps = getConnectedComps(comps);
+void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    auto                          ccomps = getConnectedComps(comps, pcm);
     std::set<std::size_t>         chosenComponent;
     std::random_device            rd;
     std::mt19937                  gen(rd());
@@ -298,7 +300,7 @@ void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
     std::advance(it, chosenIdx);
     chosenComponent = *it;
 
-    const auto& nbrs = getCode()->gethZ()->getNbrs(*chosenComponent.begin());
+    const auto& nbrs = pcm->getNbrs(*chosenComponent.begin());
     comps.insert(nbrs.begin(), nbrs.end());
 }
 
@@ -308,7 +310,7 @@ void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
  * @return
  */
 std::vector<std::set<std::size_t>>
-UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
+UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes, const std::unique_ptr<ParityCheckMatrix>& pcm) const {
     std::set<std::size_t>              visited;
     std::vector<std::set<std::size_t>> res;
 
@@ -324,7 +326,7 @@ UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
                 stack.pop();
                 if (ccomp.find(curr) == ccomp.end()) {
                     ccomp.insert(curr);
-                    auto nbrs = getCode()->gethZ()->getNbrs(curr);
+                    auto nbrs = pcm->getNbrs(curr);
                     for (auto n : nbrs) {
                         if (ccomp.find(n) == ccomp.end() && nodes.find(n) != nodes.end()) {
                             stack.push(n);
diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index 597576a..a3e0173 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -48,16 +48,20 @@ void UFHeuristic::decode(const gf2Vec& syndrome) {
     if (syndrome.size() > this->getCode()->gethZ()->pcm->size()) {
         std::vector<bool> xSyndr;
         std::vector<bool> zSyndr;
-        auto              mid = syndrome.begin() + (static_cast<std::int64_t>(std::size(syndrome)) / 2U);
+        auto              mid = syndrome.begin() + static_cast<std::int64_t>(this->getCode()->gethZ()->pcm->size());
         std::move(syndrome.begin(), mid, std::back_inserter(xSyndr));
         std::move(mid, syndrome.end(), std::back_inserter(zSyndr));
+        // same convention as for errors and syndromes: the X part comes first, followed by the Z part
         doDecoding(xSyndr, this->getCode()->gethZ());
-        auto xres = this->result;
-        this->reset();
-        doDecoding(zSyndr, this->getCode()->gethZ());
-        this->result.decodingTime += xres.decodingTime;
-        std::move(xres.estimBoolVector.begin(), xres.estimBoolVector.end(), std::back_inserter(this->result.estimBoolVector));
-        std::move(xres.estimNodeIdxVector.begin(), xres.estimNodeIdxVector.end(), std::back_inserter(this->result.estimNodeIdxVector));
+        auto xres = std::move(this->result);
+        doDecoding(zSyndr, this->getCode()->gethX());
+        const auto zres = std::move(this->result);
+        xres.decodingTime += zres.decodingTime;
+        xres.estimBoolVector.insert(xres.estimBoolVector.end(), zres.estimBoolVector.begin(), zres.estimBoolVector.end());
+        for (const auto idx : zres.estimNodeIdxVector) {
+            xres.estimNodeIdxVector.emplace_back(getCode()->getN() + idx);
+        }
+        this->result = std::move(xres);
     } else {
         this->doDecoding(syndrome, getCode()->gethZ()); // X errs per default if single sided
     }
@@ -74,7 +78,7 @@ void UFHeuristic::doDecoding(const gf2Vec& syndrome, const std::unique_ptr<Parit
         auto                            syndrComponents   = computeInitTreeComponents(syndrome);
         auto                            invalidComponents = syndrComponents;
         std::unordered_set<std::size_t> erasure;
-        while (!invalidComponents.empty() && invalidComponents.size() < (this->getCode()->gethZ()->pcm->size() + getCode()->gethZ()->pcm->front().size())) {
+        while (!invalidComponents.empty() && invalidComponents.size() < (pcm->pcm->size() + pcm->pcm->front().size())) {
             // Step 1 growth
             std::vector<std::pair<std::size_t, std::size_t>> fusionEdges;
             std::unordered_map<std::size_t, bool>            presentMap; // for step 4
-- 
2.43.0


From 306a049b0dea6abaaec863593dd158ec83d8279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 14/79] fix: grow clusters until they are valid in every growth
 variant of UFDecoder

---
 include/UFDecoder.hpp |   7 +--
 src/UFDecoder.cpp     | 104 +++++++++++++++++++++---------------------
 2 files changed, 57 insertions(+), 54 deletions(-)

diff --git a/include/UFDecoder.hpp b/include/UFDecoder.hpp
index 682886b..17e84f7 100644
--- a/include/UFDecoder.hpp
+++ b/include/UFDecoder.hpp
@@ -23,8 +23,9 @@ private:
     [[nodiscard]] std::set<std::size_t>              getEstimateForComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
                                                                              const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     void                                             standardGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm);
-    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm);
-    void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm);
-    void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             growCluster(std::set<std::size_t>& nodeSet, const std::set<std::size_t>& cluster, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& clusters, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& clusters, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& clusters, const std::unique_ptr<ParityCheckMatrix>& pcm);
     [[nodiscard]] std::vector<std::set<std::size_t>> getConnectedComps(const std::set<std::size_t>& nodes, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
 };
diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 888d69a..9125697 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -61,22 +61,35 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
             components.insert(s);
         }
 
-        while (containsInvalidComponents(components, syndr, invalidComponents, pcm) &&
-               components.size() < (pcm->pcm->size() + pcm->pcm->front().size())) {
+        while (containsInvalidComponents(components, syndr, invalidComponents, pcm)) {
+            // clusters that have already absorbed all of their neighbours cannot become valid by growing
+            const auto saturated = [&](const std::set<std::size_t>& comp) {
+                return std::all_of(comp.begin(), comp.end(), [&](const auto node) {
+                    const auto nbrs = pcm->getNbrs(node);
+                    return std::includes(comp.begin(), comp.end(), nbrs.begin(), nbrs.end());
+                });
+            };
+            invalidComponents.erase(std::remove_if(invalidComponents.begin(), invalidComponents.end(), saturated), invalidComponents.end());
+            if (invalidComponents.empty()) {
+                break; // there is no error with the given syndrome
+            }
             if (this->growth == GrowthVariant::AllComponents) {
                 // // grow all components (including valid ones) by 1
                 standardGrowth(components, pcm);
             } else if (this->growth == GrowthVariant::InvalidComponents) {
-                // not implemented yet
+                // grow only by neighbours of invalid clusters
+                for (const auto& comp : invalidComponents) {
+                    growCluster(components, comp, pcm);
+                }
             } else if (this->growth == GrowthVariant::SingleSmallest) {
                 // grow only by neighbours of single smallest cluster
-                singleClusterSmallestFirstGrowth(components, pcm);
+                singleClusterSmallestFirstGrowth(components, invalidComponents, pcm);
             } else if (this->growth == GrowthVariant::SingleRandom) {
                 // grow only by neighbours of single random cluster
-                singleClusterRandomFirstGrowth(components, pcm);
+                singleClusterRandomFirstGrowth(components, invalidComponents, pcm);
             } else if (this->growth == GrowthVariant::SingleQubitRandom) {
                 // grow only by neighbours of single qubit
-                singleQubitRandomFirstGrowth(components, pcm);
+                singleQubitRandomFirstGrowth(components, invalidComponents, pcm);
             } else {
                 throw std::invalid_argument("Unsupported growth variant");
             }
@@ -117,13 +130,13 @@ bool UFDecoder::containsInvalidComponents(const std::set<std::size_t>&
                                           std::vector<std::set<std::size_t>>&       invalidComps,
                                           const std::unique_ptr<ParityCheckMatrix>& pcm) const {
     auto ccomps = getConnectedComps(nodeSet, pcm);
-    return std::any_of(ccomps.begin(), ccomps.end(), [&](const auto& comp) {
-        bool const res = isValidComponent(comp, syndrome, pcm);
-        if (!res) {
-            invalidComps.emplace_back(comp.begin(), comp.end());
+    invalidComps.clear();
+    for (const auto& comp : ccomps) {
+        if (!isValidComponent(comp, syndrome, pcm)) {
+            invalidComps.emplace_back(comp);
         }
-        return !res;
-    });
+    }
+    return !invalidComps.empty();
 }
 
 /**
@@ -236,45 +249,37 @@ void UFDecoder::standardGrowth(std::set<std::size_t>& comps, const std::unique_p
 }
 
 /**
- * Grows the node set by the neighbours of the single smallest cluster
+ * Grows the node set by the neighbours of the given cluster
  * @param nodeSet
+ * @param cluster
  */
-void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) {
-    auto                  ccomps = getConnectedComps(nodeSet, pcm);
-    std::set<std::size_t> smallestComponent;
-    std::size_t           smallestSize = SIZE_MAX;
-    for (const auto& cId : ccomps) {
-        if (cId.size() < smallestSize) {
-            smallestComponent = cId;
-            smallestSize      = cId.size();
-        }
-    }
-
-    for (auto node : smallestComponent) {
+void UFDecoder::growCluster(std::set<std::size_t>& nodeSet, const std::set<std::size_t>& cluster, const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    for (const auto node : cluster) {
         const auto& nbrs = pcm->getNbrs(node);
         nodeSet.insert(nbrs.begin(), nbrs.end());
     }
 }
 
+/**
+ * Grows the node set by the neighbours of the single smallest cluster
+ * @param nodeSet
+ * @param clusters the clusters to choose from
+ */
+void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& clusters, const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    const auto smallest = std::min_element(clusters.begin(), clusters.end(), [](const auto& a, const auto& b) { return a.size() < b.size(); });
+    growCluster(nodeSet, *smallest, pcm);
+}
+
 /**
  * Grows the node set by the neighbours of a single random cluster
  * @param nodeSet
+ * @param clusters the clusters to choose from
  */
-void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) {
-    auto                          ccomps = getConnectedComps(nodeSet, pcm);
-    std::set<std::size_t>         chosenComponent;
+void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& clusters, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     std::random_device            rd;
     std::mt19937                  gen(rd());
-    std::uniform_int_distribution d(static_cast<std::size_t>(0U), ccomps.size() - 1);
-    const std::size_t             chosenIdx = d(gen);
-    auto                          it        = ccomps.begin();
-    std::advance(it, chosenIdx);
-    chosenComponent = *it;
-
-    for (auto node : chosenComponent) {
-        const auto& nbrs = pcm->getNbrs(node);
-        nodeSet.insert(nbrs.begin(), nbrs.end());
-    }
+    std::uniform_int_distribution d(static_cast<std::size_t>(0U), clusters.size() - 1);
+    growCluster(nodeSet, clusters.at(d(gen)), pcm);
 }
 
 /**
@@ -286,22 +291,19 @@ void UFDecoder::reset() {
 }
 
 /**
- * Grows the node set by the neighbours of a single random qubit
- * @param comps
+ * Grows the node set by the neighbours of a single random node of a random cluster
+ * @param nodeSet
+ * @param clusters the clusters to choose from
  */
-void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm) {
-    auto                          ccomps = getConnectedComps(comps, pcm);
-    std::set<std::size_t>         chosenComponent;
+void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& clusters, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     std::random_device            rd;
     std::mt19937                  gen(rd());
-    std::uniform_int_distribution d(static_cast<std::size_t>(0U), ccomps.size());
-    const std::size_t             chosenIdx = d(gen);
-    auto                          it        = ccomps.begin();
-    std::advance(it, chosenIdx);
-    chosenComponent = *it;
-
-    const auto& nbrs = pcm->getNbrs(*chosenComponent.begin());
-    comps.insert(nbrs.begin(), nbrs.end());
+    std::uniform_int_distribution d(static_cast<std::size_t>(0U), clusters.size() - 1);
+    const auto&                   chosenCluster = clusters.at(d(gen));
+    std::uniform_int_distribution dNode(static_cast<std::size_t>(0U), chosenCluster.size() - 1);
+    auto                          it = chosenCluster.begin();
+    std::advance(it, dNode(gen));
+    growCluster(nodeSet, {*it}, pcm);
 }
 
 /**
-- 
2.43.0


From 9ccbb57796ec76f085c4da979245b43b95de478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 15/79] fix: write valid and complete statistics when
 simulating word error rates

---
 src/DecodingSimulator.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/DecodingSimulator.cpp b/src/DecodingSimulator.cpp
index 232def8..5b75376 100644
--- a/src/DecodingSimulator.cpp
+++ b/src/DecodingSimulator.cpp
@@ -54,12 +54,14 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
         statisticsOutstr.open(jsonFileName);
         std::cout << "Writing stats output to " << jsonFileName << '\n';
         statisticsOutstr << "{ \"runs\" : [ ";
-        statisticsOutstr << R"({ "run": { "physicalErrRate":)" << minPhysicalErrRate << ", \"data\": [ ";
     }
 
     auto currPer = minPhysicalErrRate;
     while (currPer < maxPhysicalErrRate) {
         auto nrOfFailedRuns = 0;
+        if (statsOut) {
+            statisticsOutstr << (currPer > minPhysicalErrRate ? ", " : "") << R"({ "run": { "physicalErrRate": )" << currPer << R"(, "data": [ )";
+        }
         for (std::size_t j = 0; j < nrRunsPerRate; j++) {
             std::unique_ptr<Decoder> decoder;
             if (decoderType == DecoderType::UfDecoder) {
@@ -79,7 +81,11 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
             const auto success = decoder->getCode()->isXStabilizer(residualErr);
 
             DecodingRunInformation stats;
-            stats.result = decoder->result;
+            stats.result       = decoder->result;
+            stats.physicalErrR = currPer;
+            stats.codeSize     = code.getN();
+            stats.error        = error;
+            stats.syndrome     = syndrome;
             if (success) {
                 stats.status = SUCCESS;
             } else {
@@ -93,6 +99,9 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
                 }
             }
         }
+        if (statsOut) {
+            statisticsOutstr << " ] } }";
+        }
         // compute word error rate WER
         const auto blockErrRate = static_cast<double>(nrOfFailedRuns) / static_cast<double>(nrRunsPerRate);
         const auto wordErrRate  = blockErrRate / static_cast<double>(code.getK());       // rate of codewords re decoder does not give correct answer (fails or introduces logical operator)
@@ -101,7 +110,7 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
         currPer += perStepSize;
     }
 
-    statisticsOutstr << "}";
+    statisticsOutstr << " ] }";
     const json dataj = wordErrRatePerPhysicalErrRate;
     rawDataOutput << dataj.dump(2U);
     statisticsOutstr.close();
-- 
2.43.0


From 19db349f64da46dbc0ffaf4409e11d9e395bfa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 16/79] fix: average the decoding time of each run separately

---
 src/DecodingSimulator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DecodingSimulator.cpp b/src/DecodingSimulator.cpp
index 5b75376..3be184e 100644
--- a/src/DecodingSimulator.cpp
+++ b/src/DecodingSimulator.cpp
@@ -151,10 +151,10 @@ void DecodingSimulator::simulateAverageRuntime(const std::string& rawDataOutputF
     }
     try {
         for (const auto& currPath : codePaths) {
-            std::size_t avgDecodingTimeAcc = 0U;
-            auto        code               = Code(currPath);
-            const auto  codeN              = code.getN();
+            auto       code  = Code(currPath);
+            const auto codeN = code.getN();
             for (std::size_t j = 0; j < nrRuns; j++) {
+                std::size_t avgDecodingTimeAcc = 0U;
                 for (std::size_t i = 0; i < nrSamples; i++) {
                     std::unique_ptr<Decoder> decoder;
                     if (decoderType == DecoderType::UfDecoder) {
-- 
2.43.0


From 70c4f61b4d080c970e77bec56554df7129998d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 17/79] fix: write the decoding information to the requested
 file

---
 src/DecodingSimulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DecodingSimulator.cpp b/src/DecodingSimulator.cpp
index 3be184e..a65980d 100644
--- a/src/DecodingSimulator.cpp
+++ b/src/DecodingSimulator.cpp
@@ -175,7 +175,7 @@ void DecodingSimulator::simulateAverageRuntime(const std::string& rawDataOutputF
                         info.codeSize     = codeN;
                         info.syndrome     = syndrome;
                         info.error        = error;
-                        info.print();
+                        dataOutStream << info.toString() << '\n';
                     }
                     avgDecodingTimeAcc = avgDecodingTimeAcc + decodingResult.decodingTime;
                     decoder->reset();
-- 
2.43.0


From ce0d78802592931f7dceb4e6067f3caa39bed2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 18/79] fix: report failed simulations and unwritable reports
 instead of finishing silently

---
 src/DecodingSimulator.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/DecodingSimulator.cpp b/src/DecodingSimulator.cpp
index a65980d..0b22d53 100644
--- a/src/DecodingSimulator.cpp
+++ b/src/DecodingSimulator.cpp
@@ -3,6 +3,7 @@
 #include "Code.hpp"
 #include "Decoder.hpp"
 #include "DecodingRunInformation.hpp"
+#include "QeccException.hpp"
 #include "UFDecoder.hpp"
 #include "UFHeuristic.hpp"
 #include "Utils.hpp"
@@ -30,6 +31,12 @@ std::string generateOutFileName(const std::string& filepath) {
     return filepath + "-" + timestamp + ".json";
 }
 
+void assertWritten(const std::ofstream& stream, const std::string& filepath) {
+    if (!stream) {
+        throw QeccException(("Could not write to file " + generateOutFileName(filepath)).c_str());
+    }
+}
+
 void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
                                     const std::string& statsOutputFilepath,
                                     double             minPhysicalErrRate,
@@ -113,8 +120,14 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
     statisticsOutstr << " ] }";
     const json dataj = wordErrRatePerPhysicalErrRate;
     rawDataOutput << dataj.dump(2U);
-    statisticsOutstr.close();
-    rawDataOutput.close();
+    if (statsOut) {
+        statisticsOutstr.close();
+        assertWritten(statisticsOutstr, statsOutputFilepath);
+    }
+    if (rawOut) {
+        rawDataOutput.close();
+        assertWritten(rawDataOutput, rawDataOutputFilepath);
+    }
 }
 
 void DecodingSimulator::simulateAverageRuntime(const std::string& rawDataOutputFilepath,
@@ -188,11 +201,16 @@ void DecodingSimulator::simulateAverageRuntime(const std::string& rawDataOutputF
         }
     } catch (std::exception& e) {
         std::cerr << "Exception occurred " << e.what() << '\n';
+        throw;
     }
     if (rawOut) {
         const json j = avgSampleRunsPerCode;
         finalRawOut << j.dump(2U);
         finalRawOut.close();
+        assertWritten(finalRawOut, rawDataOutputFilepath);
+    }
+    if (infoOut) {
+        dataOutStream.close();
+        assertWritten(dataOutStream, decodingInfoOutfilePath);
     }
-    dataOutStream.close();
 }
-- 
2.43.0


From 7732c48faf63cde1b4c66a5ede119b122ee9bdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 19/79] fix: measure decoding times with a clock that never
 jumps

---
 src/UFDecoder.cpp   | 4 ++--
 src/UFHeuristic.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 9125697..9675b6b 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -45,7 +45,7 @@ void UFDecoder::decode(const gf2Vec& syndrome) {
 }
 
 void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_ptr<ParityCheckMatrix>& pcm) {
-    const auto                         decodingTimeBegin = std::chrono::high_resolution_clock::now();
+    const auto                         decodingTimeBegin = std::chrono::steady_clock::now();
     std::set<std::size_t>              components; // used to store vertex indices in E set
     std::vector<std::set<std::size_t>> invalidComponents;
     std::set<std::size_t>              syndr; // vertex indices of syndrome nodes
@@ -108,7 +108,7 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
     }
     std::vector<std::size_t> res(tmp.begin(), tmp.end());
 
-    const auto decodingTimeEnd = std::chrono::high_resolution_clock::now();
+    const auto decodingTimeEnd = std::chrono::steady_clock::now();
     result.decodingTime        = static_cast<std::size_t>(std::chrono::duration_cast<std::chrono::milliseconds>(
                                                            decodingTimeEnd - decodingTimeBegin)
                                                                   .count());
diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index a3e0173..18e28bf 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -71,7 +71,7 @@ void UFHeuristic::decode(const gf2Vec& syndrome) {
  * @param syndrome
  */
 void UFHeuristic::doDecoding(const gf2Vec& syndrome, const std::unique_ptr<ParityCheckMatrix>& pcm) {
-    auto                     decodingTimeBegin = std::chrono::high_resolution_clock::now();
+    auto                     decodingTimeBegin = std::chrono::steady_clock::now();
     std::vector<std::size_t> res;
     clearNodes(); // clusters of previously decoded syndromes must not influence this run
     if (!syndrome.empty() && !std::all_of(syndrome.begin(), syndrome.end(), [](bool val) { return !val; })) {
@@ -174,7 +174,7 @@ void UFHeuristic::doDecoding(const gf2Vec& syndrome, const std::unique_ptr<Parit
         }
         res = erasureDecoder(erasure, syndrComponents, pcm);
     }
-    auto decodingTimeEnd   = std::chrono::high_resolution_clock::now();
+    auto decodingTimeEnd   = std::chrono::steady_clock::now();
     result                 = DecodingResult();
     result.decodingTime    = static_cast<std::size_t>(std::chrono::duration_cast<std::chrono::milliseconds>(decodingTimeEnd - decodingTimeBegin).count());
     result.estimBoolVector = gf2Vec(getCode()->getN());
-- 
2.43.0


From 221004a840e74c80fd139416e34cbde105b550e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 20/79] fix: report the measured qubits of circuits without
 measurements

---
 src/mqt/qecc/ecc_qiskit_wrapper.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ecc_qiskit_wrapper.py b/src/mqt/qecc/ecc_qiskit_wrapper.py
index 058cdea..e9c3c2f 100644
--- a/src/mqt/qecc/ecc_qiskit_wrapper.py
+++ b/src/mqt/qecc/ecc_qiskit_wrapper.py
@@ -7,6 +7,7 @@ import locale
 import pathlib
 from typing import TYPE_CHECKING
 
+from qiskit import ClassicalRegister, QuantumCircuit
 from qiskit.qasm2 import dump, load, loads
 from qiskit_aer import AerSimulator
 from qiskit_aer.noise import (
@@ -87,6 +88,18 @@ def print_simulation_results(result: Result, n_shots: int, threshold_probability
                 break
 
 
+def measure_all_qubits(circ: QuantumCircuit) -> QuantumCircuit:
+    """Measure all qubits into a new classical register, which is declared first as results are printed for the first register."""
+    name = "meas"
+    while any(reg.name == name for reg in circ.qregs + circ.cregs):
+        name += "_"
+    measured = QuantumCircuit(ClassicalRegister(circ.num_qubits, name), *circ.qregs, *circ.cregs)
+    measured.compose(circ, clbits=circ.clbits, inplace=True)
+    measured.barrier()
+    measured.measure(measured.qubits, measured.cregs[0])
+    return measured
+
+
 def main() -> None:
     """Run main function of the Qiskit wrapper for the ECC Framework."""
     parser = argparse.ArgumentParser(description="Qiskit wrapper for the ECC Framework")
@@ -169,7 +182,7 @@ def main() -> None:
 
     if not any(gate.operation.name == "measure" for gate in circ.data):
         print("Warning: No measurement gates found in the circuit. Adding measurement gates to all qubits.")  # noqa: T201
-        circ.measure_all()
+        circ = measure_all_qubits(circ)
 
     # Initializing the quantum circuit
     if ecc is not None:
-- 
2.43.0


From 831e63125fc17ee7b267f396341f2dfde82a0f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 21/79] fix: load the swap gates that the surface codes emit in
 the Qiskit wrapper

The OpenQASM 2 loader rejects gates missing from its strict qelib1.inc, so circuits
protected by Q9Surface or Q18Surface with Hadamards could not be simulated.
---
 src/mqt/qecc/ecc_qiskit_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/ecc_qiskit_wrapper.py b/src/mqt/qecc/ecc_qiskit_wrapper.py
index e9c3c2f..0cb5028 100644
--- a/src/mqt/qecc/ecc_qiskit_wrapper.py
+++ b/src/mqt/qecc/ecc_qiskit_wrapper.py
@@ -8,7 +8,7 @@ import pathlib
 from typing import TYPE_CHECKING
 
 from qiskit import ClassicalRegister, QuantumCircuit
-from qiskit.qasm2 import dump, load, loads
+from qiskit.qasm2 import LEGACY_CUSTOM_INSTRUCTIONS, dump, load, loads
 from qiskit_aer import AerSimulator
 from qiskit_aer.noise import (
     NoiseModel,
@@ -178,7 +178,7 @@ def main() -> None:
     else:
         noise_model = NoiseModel()
 
-    circ = load(open_qasm_file)
+    circ = load(open_qasm_file, custom_instructions=LEGACY_CUSTOM_INSTRUCTIONS)
 
     if not any(gate.operation.name == "measure" for gate in circ.data):
         print("Warning: No measurement gates found in the circuit. Adding measurement gates to all qubits.")  # noqa: T201
@@ -188,7 +188,7 @@ def main() -> None:
     if ecc is not None:
         # Applying error correction to the circuit
         result = apply_ecc(circ, ecc, ecc_frequency)
-        circ = loads(result["circ"])
+        circ = loads(result["circ"], custom_instructions=LEGACY_CUSTOM_INSTRUCTIONS)
 
     if ecc_export_filename is not None:
         print("Exporting circuit to: " + str(ecc_export_filename))  # noqa: T201
-- 
2.43.0


From 7dde2d9bbf4b73d83dbbbfad49ef14b537e86c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 22/79] fix: leave the optimizer usable after a failed solve of
 the lights-out decoder

A failing (external or built-in) solver call left its constraints on the optimizer, so
every later solve of the same instance was wrong or unsatisfiable.
---
 src/mqt/qecc/cc_decoder/decoder.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qecc/cc_decoder/decoder.py b/src/mqt/qecc/cc_decoder/decoder.py
index deb4294..491528f 100644
--- a/src/mqt/qecc/cc_decoder/decoder.py
+++ b/src/mqt/qecc/cc_decoder/decoder.py
@@ -97,7 +97,14 @@ class LightsOut:
         """
         # push a new context to the optimizer
         self.optimizer.push()
-
+        try:
+            return self._solve_in_context(lights, solver_path)
+        finally:
+            # pop the context from the optimizer, also if no solution could be obtained
+            self.optimizer.pop()
+
+    def _solve_in_context(self, lights: list[bool], solver_path: str) -> tuple[list[int], float, float]:
+        """Solve the lights-out problem for a given pattern in the current context of the optimizer."""
         # add the problem specific constraints
         start = timer()
         for light, val in enumerate(lights):
@@ -128,9 +135,6 @@ class LightsOut:
                 subprocess.run([solver_path, wcnf], stdout=out, check=False)  # noqa: S603
                 solve_time = timer() - start
 
-        # pop the context from the optimizer
-        self.optimizer.pop()
-
         return switches, constr_time, solve_time
 
 
-- 
2.43.0


From 0d10183f9469c7e6b4de6324858acdbebab39a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 23/79] fix: name colour-code reports after the exact error
 rate

Rates that agree in their first four decimals overwrote each other's reports.
---
 src/mqt/qecc/cc_decoder/comparison/tn_decoder.py | 2 +-
 src/mqt/qecc/cc_decoder/decoder.py               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/cc_decoder/comparison/tn_decoder.py b/src/mqt/qecc/cc_decoder/comparison/tn_decoder.py
index b731e45..b445964 100644
--- a/src/mqt/qecc/cc_decoder/comparison/tn_decoder.py
+++ b/src/mqt/qecc/cc_decoder/comparison/tn_decoder.py
@@ -27,7 +27,7 @@ def run(
     error_model = BitFlipErrorModel()
     decoder = Color666MPSDecoder(chi=8)
     data = app.run(code, error_model, decoder, error_rate, max_runs=nr_sims)
-    filename = f"distance={distance},p={round(error_rate, 4)}.json"
+    filename = f"distance={distance},p={error_rate}.json"
     path = Path(results_dir)
     path.mkdir(parents=True, exist_ok=True)
     with (path / filename).open("w") as out:
diff --git a/src/mqt/qecc/cc_decoder/decoder.py b/src/mqt/qecc/cc_decoder/decoder.py
index 491528f..3e8707c 100644
--- a/src/mqt/qecc/cc_decoder/decoder.py
+++ b/src/mqt/qecc/cc_decoder/decoder.py
@@ -205,7 +205,7 @@ def run(
     code = code_from_string(lattice_type, distance)
     data = simulate_error_rate(code, error_rate, nr_sims, solver)
     strg = solver.split("/")[-1]
-    filename = f"./code={code.lattice_type},distance={code.distance},p={round(error_rate, 4)},solver={strg}.json"
+    filename = f"./code={code.lattice_type},distance={code.distance},p={error_rate},solver={strg}.json"
     path = Path(results_dir)
     path.mkdir(parents=True, exist_ok=True)
     with (path / filename).open("w") as out:
-- 
2.43.0


From 9de83984d71fef61bf7133c1702f443c940b4839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 24/79] fix: measure weight-one stabilizers without a flag
 instead of reporting a random outcome

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index dd1c80e..de5237f 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1333,6 +1333,10 @@ def measure_flagged(
         z_measurement: Whether to measure an X (False) or Z (True) stabilizer.
     """
     w = len(stab)
+    if w == 1:
+        _measure_stab_unflagged(qc, stab, ancilla, measurement_bit, z_measurement)
+        return
+
     if t == 1:
         _measure_stab_one_flagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
-- 
2.43.0


From 8452eebf1df6e634142be34010ac9e67e49268a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 25/79] fix: measure weight-three stabilizers for two faults
 without undefined flags

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index de5237f..4a08f80 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1341,7 +1341,7 @@ def measure_flagged(
         _measure_stab_one_flagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
 
-    if w < 3 and t == 2:
+    if w <= 3 and t == 2:
         _measure_stab_unflagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
 
-- 
2.43.0


From c397612ba16127e4389ce6c90042e61984fc84c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 26/79] fix: open and close the flags of long stabilizer
 measurements in order

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 4a08f80..e00abe5 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1436,10 +1436,10 @@ def measure_stab_two_flagged(
         if cnots % 2 == 0 and cnots < len(stab) - 2:
             _flag_init(qc, flag_reg[flags], z_measurement)
             _ancilla_cnot(qc, flag_reg[flags], ancilla, z_measurement)
+            flags += 1
         if cnots >= 7 and cnots % 2 == 1:
-            _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-            _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
-        flags += 1
+            _ancilla_cnot(qc, flag_reg[(cnots - 3) // 2], ancilla, z_measurement)
+            _flag_measure(qc, flag_reg[(cnots - 3) // 2], meas_reg[(cnots - 3) // 2], z_measurement)
 
     _ancilla_cnot(qc, flag_reg[0], ancilla, z_measurement)
     _flag_measure(qc, flag_reg[0], meas_reg[0], z_measurement)
@@ -1448,8 +1448,8 @@ def measure_stab_two_flagged(
 
     cnots += 1
     if cnots >= 7 and cnots % 2 == 1:
-        _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-        _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
+        _ancilla_cnot(qc, flag_reg[(cnots - 3) // 2], ancilla, z_measurement)
+        _flag_measure(qc, flag_reg[(cnots - 3) // 2], meas_reg[(cnots - 3) // 2], z_measurement)
 
     _ancilla_cnot(qc, flag_reg[1], ancilla, z_measurement)
     _flag_measure(qc, flag_reg[1], meas_reg[1], z_measurement)
@@ -1458,8 +1458,8 @@ def measure_stab_two_flagged(
 
     cnots += 1
     if cnots >= 7 and cnots % 2 == 1:
-        _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-        _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
+        _ancilla_cnot(qc, flag_reg[(cnots - 3) // 2], ancilla, z_measurement)
+        _flag_measure(qc, flag_reg[(cnots - 3) // 2], meas_reg[(cnots - 3) // 2], z_measurement)
     if not z_measurement:
         qc.h(ancilla)
 
-- 
2.43.0


From 5009c2b454ce56e516fbb0508208930674584dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 27/79] fix: propagate errors before a control through that
 gate when computing fault sets

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index e00abe5..2161b2f 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1185,7 +1185,7 @@ def _propagate_error(nodes: list[DAGNode], n_qubits: int, x_errors: bool = True)
     error: npt.NDArray[np.int8] = np.array([0] * n_qubits, dtype=np.int8)
     error[control] = 1
     # propagate error through circuit via bfs
-    for node in nodes[1:]:
+    for node in nodes:
         control = node.qargs[0]._index  # noqa: SLF001
         target = node.qargs[1]._index  # noqa: SLF001
         if x_errors:
-- 
2.43.0


From e1610df0b81db383462c0111c0977b7928a9009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 28/79] fix: stop minimising state preparation circuits at the
 smallest parameter

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 2161b2f..ec33f65 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -424,7 +424,7 @@ def _optimal_circuit(
     # Solving a SAT instance is much faster than proving unsat in this case
     # so we iterate backwards until we find an unsat instance or hit a timeout
     logging.info("Trying to minimize param")
-    while True:
+    while curr_param > 1:
         logging.info(f"Trying param {curr_param - 1}")
         opt_res = _run_with_timeout(fun, curr_param - 1, timeout=max_timeout)
         if opt_res is None or (isinstance(opt_res, str) and opt_res == "timeout"):
-- 
2.43.0


From bd3e7d61bee3b3ad9b517fd88779809762ada371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:53 +0000
Subject: [PATCH 29/79] fix: enumerate every suffix of a stabilizer measurement
 as hook error

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index ec33f65..dd11962 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1612,5 +1612,4 @@ def _hook_errors(stabs: list[npt.NDArray[np.int8]]) -> npt.NDArray[np.int8]:
             if stab[i] == 1:
                 error[i] = 0
                 errors.append(error.copy())
-                error[i] = 1
     return np.array(errors)
-- 
2.43.0


From 22f9203221b23f52dfdb178818d3e6e271593a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:20 +0000
Subject: [PATCH 30/79] fix: never return an unverified circuit when the search
 for verification stabilizers fails

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index dd11962..7c43f93 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -741,9 +741,17 @@ def gate_optimal_verification_circuit(
         zero_state: bool,
         additional_errors: npt.NDArray[np.int8] | None = None,
     ) -> list[list[npt.NDArray[np.int8]]]:
-        return gate_optimal_verification_stabilizers(
+        layers = gate_optimal_verification_stabilizers(
             sp_circ, zero_state, min_timeout, max_timeout, max_ancillas, additional_errors
         )
+        if not layers and sp_circ.max_errors > 0:
+            # never return an unverified circuit because the search ran out of time
+            logging.warning("No optimal verification stabilizers found, falling back to the heuristic method.")
+            layers = heuristic_verification_stabilizers(sp_circ, zero_state, additional_faults=additional_errors)
+            if max_ancillas is not None and any(len(layer) > max_ancillas for layer in layers):
+                msg = f"No verification circuit found with at most {max_ancillas} ancillas per layer."
+                raise ValueError(msg)
+        return layers
 
     return _verification_circuit(sp_circ, verification_stabs_fun, full_fault_tolerance=full_fault_tolerance)
 
-- 
2.43.0


From a1a4ec63a9cef43140ef87e56f6848134e2ca59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:59 +0000
Subject: [PATCH 31/79] fix: keep CNOTs of the first layer when computing fault
 sets

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 7c43f93..840594e 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -93,7 +93,8 @@ class StatePrepCircuit:
             logging.info("Computing fault set for 1 error.")
             dag = circuit_to_dag(self.circ)
             for node in dag.front_layer():  # remove hadamards
-                dag.remove_op_node(node)
+                if node.name == "h":
+                    dag.remove_op_node(node)
             fault_list = []
             # propagate every error before a control
             nodes = list(dag.topological_op_nodes())
-- 
2.43.0


From 20c72b0a759ac76a73206a50f2bf9edd2fc7be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 32/79] fix: share the lookup table between X and Z errors only
 if their checks are the same

---
 src/mqt/qecc/ft_stateprep/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 6759632..1e900f8 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -376,7 +376,7 @@ class LutDecoder:
 
         assert self.code.Hz is not None, "The code does not have a Z stabilizer matrix."
         self.x_lut = LutDecoder._generate_lut(self.code.Hz)
-        if self.code.is_self_dual():
+        if np.array_equal(self.code.Hx, self.code.Hz):
             self.z_lut = self.x_lut
 
     def generate_z_lut(self) -> None:
@@ -386,7 +386,7 @@ class LutDecoder:
 
         assert self.code.Hx is not None, "The code does not have an X stabilizer matrix."
         self.z_lut = LutDecoder._generate_lut(self.code.Hx)
-        if self.code.is_self_dual():
+        if np.array_equal(self.code.Hx, self.code.Hz):
             self.z_lut = self.x_lut
 
     @staticmethod
-- 
2.43.0


From a2981e3764c14db5017036bca58fbf09f2b5a560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 33/79] fix: look up syndromes of any integer type

---
 src/mqt/qecc/ft_stateprep/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 1e900f8..c33b1fa 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -361,13 +361,13 @@ class LutDecoder:
         """Decode the X errors given a syndrome."""
         if len(self.x_lut) == 0:
             self.generate_x_lut()
-        return self.x_lut[syndrome.tobytes()]
+        return self.x_lut[syndrome.astype(np.int8).tobytes()]
 
     def decode_z(self, syndrome: npt.NDArray[np.int8]) -> npt.NDArray[np.int8]:
         """Decode the Z errors given a syndrome."""
         if len(self.z_lut) == 0:
             self.generate_z_lut()
-        return self.z_lut[syndrome.tobytes()]
+        return self.z_lut[syndrome.astype(np.int8).tobytes()]
 
     def generate_x_lut(self) -> None:
         """Generate the lookup table for the X errors."""
-- 
2.43.0


From 75b255e9e086b83a80adc03fcf47018cba69e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 34/79] fix: keep the lookup table for Z errors of self-dual
 codes

---
 src/mqt/qecc/ft_stateprep/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index c33b1fa..78ed62c 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -387,7 +387,7 @@ class LutDecoder:
         assert self.code.Hx is not None, "The code does not have an X stabilizer matrix."
         self.z_lut = LutDecoder._generate_lut(self.code.Hx)
         if np.array_equal(self.code.Hx, self.code.Hz):
-            self.z_lut = self.x_lut
+            self.x_lut = self.z_lut
 
     @staticmethod
     def _generate_lut(checks: npt.NDArray[np.int_]) -> dict[bytes, npt.NDArray[np.int_]]:
-- 
2.43.0


From ffa41960693cc36d2e275640c71aa9fc66cd51fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:06 +0000
Subject: [PATCH 35/79] fix: report logical error and acceptance rates over
 exactly the simulated shots

---
 src/mqt/qecc/ft_stateprep/simulation.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 78ed62c..f5b3f65 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -241,26 +241,25 @@ class NoisyNDFTStatePrepSimulator:
         else:
             self.decoder.generate_z_lut()
 
-        i = 1
-        while i <= int(np.ceil(shots / batch)) or at_least_min_errors:
+        num_accepted = 0
+        i = 0
+        while i < int(np.ceil(shots / batch)) or at_least_min_errors:
+            i += 1
             num_logical_errors_batch, discarded_batch = self._simulate_batch(batch)
 
             logging.log(
                 logging.INFO,
                 f"Batch {i}: {num_logical_errors_batch} logical errors and {discarded_batch} discarded shots. {batch - discarded_batch} shots used.",
             )
-            p_l_batch = num_logical_errors_batch / (batch - discarded_batch) if discarded_batch != batch else 0.0
-            p_l = ((i - 1) * p_l + p_l_batch) / i
-
-            r_a_batch = 1 - discarded_batch / batch
 
             # Update statistics
             num_logical_errors += num_logical_errors_batch
-            r_a = ((i - 1) * r_a + r_a_batch) / i
+            num_accepted += batch - discarded_batch
+            p_l = num_logical_errors / num_accepted if num_accepted > 0 else 0.0
+            r_a = num_accepted / (i * batch)
 
             if at_least_min_errors and num_logical_errors >= min_errors:
                 break
-            i += 1
 
         return p_l / self.code.k, r_a, num_logical_errors, i * batch
 
-- 
2.43.0


From 6de9dabc42917ae212db28b97e78f4149ca9552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 36/79] fix: keep Hadamards of qubits that are first used as
 target in noisy simulations

---
 src/mqt/qecc/ft_stateprep/simulation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index f5b3f65..3782558 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -146,7 +146,11 @@ class NoisyNDFTStatePrepSimulator:
                             stim_circuit.append_operation("X_ERROR", [ctrl], [2 * self.p / 3])  # Wrong initialization
                         initialized[ctrl] = True
                     if not initialized[target]:
-                        stim_circuit.append_operation("X_ERROR", [target], [2 * self.p / 3])  # Wrong initialization
+                        if target in ctrls:
+                            stim_circuit.append_operation("H", [target])
+                            stim_circuit.append_operation("Z_ERROR", [target], [2 * self.p / 3])  # Wrong initialization
+                        else:
+                            stim_circuit.append_operation("X_ERROR", [target], [2 * self.p / 3])  # Wrong initialization
                         initialized[target] = True
 
                     stim_circuit.append_operation("CX", [ctrl, target])
@@ -170,6 +174,7 @@ class NoisyNDFTStatePrepSimulator:
                     else:
                         used_qubits.append(anc)
                     initialized[anc] = False
+                    ctrls = [qubit for qubit in ctrls if qubit != anc]
                     measured[anc] += 1
                     if measured[anc] == 2:
                         self._reused_qubits += 1
-- 
2.43.0


From 0d259544bf68dac0c1f326c044992a65ede547ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:35 +0000
Subject: [PATCH 37/79] fix: drop empty measurements when the search for fewer
 ancillas is cut short

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 840594e..e10e264 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -688,7 +688,7 @@ def gate_optimal_verification_stabilizers(
             num_anc -= 1
             measurements = anc_opt
         logging.info(f"Minimal number of ancillas for {num_errors} errors is: {num_anc}")
-        layers[num_errors - 1] = measurements
+        layers[num_errors - 1] = [m for m in measurements if np.any(m)]
 
     return layers
 
-- 
2.43.0


From 34d075de0394c8a2df1587741ed03cc7812e2138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 38/79] fix: read out the data qubits of circuits that measure
 an ancilla more than twice

---
 src/mqt/qecc/ft_stateprep/simulation.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 3782558..476d85b 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -77,13 +77,8 @@ class NoisyNDFTStatePrepSimulator:
         self.data_measurements = []
         self.n_measurements = 0
         self.p = p
-        self._reused_qubits = 0
         self.stim_circ = self.to_stim_circ()
-        self.num_qubits = (
-            self.stim_circ.num_qubits
-            - (len(self.x_verification_measurements) + len(self.z_verification_measurements))
-            + self._reused_qubits
-        )
+        self.num_qubits = self.code.n
         self.measure_stabilizers()
         if self.zero_state:
             self.measure_z()
@@ -113,7 +108,6 @@ class NoisyNDFTStatePrepSimulator:
         layers = dag.layers()
         used_qubits: list[int] = []
         targets = set()
-        measured: defaultdict[int, int] = defaultdict(int)
         for layer in layers:
             layer_circ = dag_to_circuit(layer["graph"])
 
@@ -175,9 +169,6 @@ class NoisyNDFTStatePrepSimulator:
                         used_qubits.append(anc)
                     initialized[anc] = False
                     ctrls = [qubit for qubit in ctrls if qubit != anc]
-                    measured[anc] += 1
-                    if measured[anc] == 2:
-                        self._reused_qubits += 1
 
         return stim_circuit
 
-- 
2.43.0


From c8aa707793ddb5ffa0eb5428b5aeb0f4a27be21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 39/79] fix: prepare data qubits that no two-qubit gate acts on
 in noisy simulations

---
 src/mqt/qecc/ft_stateprep/simulation.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 476d85b..4fd4032 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -119,7 +119,6 @@ class NoisyNDFTStatePrepSimulator:
             for gate in layer_circ.data:
                 if gate.operation.name == "h":
                     qubit = self.circ.find_bit(gate.qubits[0])[0]
-                    ctrls.append(qubit)
                     if initialized[qubit]:
                         stim_circuit.append_operation("H", [qubit])
                         stim_circuit.append_operation("DEPOLARIZE1", [qubit], [2 * self.p / 3])
@@ -127,6 +126,10 @@ class NoisyNDFTStatePrepSimulator:
                             idle_error([qubit])
                         else:
                             used_qubits.append(qubit)
+                    elif qubit in ctrls:  # two Hadamards cancel
+                        ctrls.remove(qubit)
+                    else:
+                        ctrls.append(qubit)
 
                 elif gate.operation.name == "cx":
                     ctrl = self.circ.find_bit(gate.qubits[0])[0]
@@ -170,6 +173,14 @@ class NoisyNDFTStatePrepSimulator:
                     initialized[anc] = False
                     ctrls = [qubit for qubit in ctrls if qubit != anc]
 
+        # prepare data qubits that are not involved in any two-qubit gate
+        for qubit in range(self.code.n):
+            if not initialized[qubit] and qubit in ctrls:
+                stim_circuit.append_operation("H", [qubit])
+                stim_circuit.append_operation("Z_ERROR", [qubit], [2 * self.p / 3])  # Wrong initialization
+            elif not initialized[qubit]:
+                stim_circuit.append_operation("X_ERROR", [qubit], [2 * self.p / 3])  # Wrong initialization
+
         return stim_circuit
 
     def measure_stabilizers(self) -> None:
-- 
2.43.0


From 2b51d134633bb105cc3232fd950e270207441c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:43 +0000
Subject: [PATCH 40/79] fix: open the result file of single-shot simulations
 for writing

---
 .../qecc/analog_information_decoding/simulators/simulation.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 3365460..709ba3d 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -700,7 +700,7 @@ class SingleShotSimulator:
         output.update(self.input_values)
         output["bias"] = replace_inf(output["bias"])  # type: ignore[assignment, arg-type]
 
-        with Path(self.outfile).open(encoding=locale.getpreferredencoding(False)) as f:
+        with Path(self.outfile).open(mode="w", encoding=locale.getpreferredencoding(False)) as f:
             f.write(
                 json.dumps(
                     output,
-- 
2.43.0


From 98ccb7a810cfd9e50d7b2ce4cd50aa9b7f020df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:43 +0000
Subject: [PATCH 41/79] fix: set the syndrome noise strength of single-shot
 simulations in every mode

---
 .../analog_information_decoding/simulators/simulation.py   | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 709ba3d..c8fc4fc 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -131,10 +131,9 @@ class SingleShotSimulator:
         self.x_syndr_error_channel = full_x_syndr_err_chnl[0] + full_x_syndr_err_chnl[1]  # x+y
         self.z_syndr_error_channel = full_z_syndr_err_chnl[2] + full_z_syndr_err_chnl[1]  # z+y
 
-        # if we want to decode with analog syndrome noise and an analog decoder
-        if self.analog_info or self.analog_tg:
-            self.sigma_x = get_sigma_from_syndr_er(self.x_syndr_error_channel[0])
-            self.sigma_z = get_sigma_from_syndr_er(self.z_syndr_error_channel[0])
+        # strength of the analog syndrome noise
+        self.sigma_x = get_sigma_from_syndr_er(self.x_syndr_error_channel[0])
+        self.sigma_z = get_sigma_from_syndr_er(self.z_syndr_error_channel[0])
 
         # if we want to decode with the analog tanner graph method construct respective matrices.
         # These are assumed to exist in the *_setup() methods
-- 
2.43.0


From ab8a049bbdfa1bf5da1a183706e8027d91bb15e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:43 +0000
Subject: [PATCH 42/79] fix: compare with the stabilizers of the error's type
 when no logicals are given

---
 .../qecc/analog_information_decoding/simulators/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index c8fc4fc..19511fe 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -223,8 +223,8 @@ class SingleShotSimulator:
             is_x_logical_error = is_logical_err(self.lz, x_residual_err)
             is_z_logical_error = is_logical_err(self.lx, z_residual_err)
         else:
-            is_x_logical_error = check_logical_err_h(self.Hz, x_err, x_residual_err)
-            is_z_logical_error = check_logical_err_h(self.Hx, z_err, z_residual_err)
+            is_x_logical_error = check_logical_err_h(self.Hx, x_err, x_decoded)
+            is_z_logical_error = check_logical_err_h(self.Hz, z_err, z_decoded)
 
         return is_x_logical_error, is_z_logical_error
 
-- 
2.43.0


From 9d29acec450c51926729a5b6742a6060faf26b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:43 +0000
Subject: [PATCH 43/79] fix: use the channel of the decoded error type in
 two-stage analog decoding

---
 .../qecc/analog_information_decoding/simulators/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 19511fe..2aabc70 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -423,14 +423,14 @@ class SingleShotSimulator:
                 decoder=self.x_abpd,
                 hard_syndrome=x_syndrome_repaired,
                 analog_syndrome=x_syndrome_w_err,
-                bit_err_channel=self.z_bit_err_channel + self.y_bit_err_channel,
+                bit_err_channel=self.x_bit_err_channel + self.y_bit_err_channel,
                 sigma=self.sigma_x,
             )
             z_decoded = self._analog_tg_decoding(
                 decoder=self.z_abpd,
                 hard_syndrome=z_syndrome_repaired,
                 analog_syndrome=z_syndrome_w_err,
-                bit_err_channel=self.x_bit_err_channel + self.y_bit_err_channel,
+                bit_err_channel=self.z_bit_err_channel + self.y_bit_err_channel,
                 sigma=self.sigma_z,
             )
         else:
-- 
2.43.0


From c9f0e704e3e1ee3912a2ad9955c57a97fe73cb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:11 +0000
Subject: [PATCH 44/79] fix: simulate noiseless analog syndromes as analog
 values

---
 .../simulators/simulation.py                    | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 2aabc70..5a0fbcb 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -231,15 +231,14 @@ class SingleShotSimulator:
     def _get_noisy_syndrome(
         self, x_syndrome: NDArray[np.int32], z_syndrome: NDArray[np.int32]
     ) -> tuple[NDArray[Any], NDArray[Any]]:
-        if self.syndr_err_rate != 0.0:
-            if self.analog_info or self.analog_tg:  # analog syndrome error with converted sigma
-                x_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=x_syndrome, sigma=self.sigma_x)
-                z_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=z_syndrome, sigma=self.sigma_z)
-            else:  # usual pauli error channel syndrome error
-                x_syndrome_err = generate_syndr_err(channel_probs=self.x_syndr_error_channel)
-                x_syndrome_w_err = (x_syndrome + x_syndrome_err) % 2
-                z_syndrome_err = generate_syndr_err(channel_probs=self.z_syndr_error_channel)
-                z_syndrome_w_err = (z_syndrome + z_syndrome_err) % 2
+        if self.analog_info or self.analog_tg:  # analog syndrome error with converted sigma
+            x_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=x_syndrome, sigma=self.sigma_x)
+            z_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=z_syndrome, sigma=self.sigma_z)
+        elif self.syndr_err_rate != 0.0:  # usual pauli error channel syndrome error
+            x_syndrome_err = generate_syndr_err(channel_probs=self.x_syndr_error_channel)
+            x_syndrome_w_err = (x_syndrome + x_syndrome_err) % 2
+            z_syndrome_err = generate_syndr_err(channel_probs=self.z_syndr_error_channel)
+            z_syndrome_w_err = (z_syndrome + z_syndrome_err) % 2
         else:
             x_syndrome_w_err = np.copy(x_syndrome)
             z_syndrome_w_err = np.copy(z_syndrome)
-- 
2.43.0


From 5717d27683a8fc7ea13a90643e54bb565b20e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:11 +0000
Subject: [PATCH 45/79] fix: threshold analog syndromes before two-stage
 decoding without meta checks

---
 .../simulators/simulation.py                           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 5a0fbcb..926ab32 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -406,7 +406,7 @@ class SingleShotSimulator:
                 m_bp=self.mz_bp,
             )
         else:
-            z_syndrome_repaired = np.copy(z_syndrome_w_err).astype(np.int32)
+            z_syndrome_repaired = self._get_hard_syndrome(z_syndrome_w_err)
 
         if self.z_meta and self.Mz is not None:
             x_syndrome_repaired = self._meta_code_decoding(
@@ -415,7 +415,7 @@ class SingleShotSimulator:
                 m_bp=self.mx_bp,
             )
         else:
-            x_syndrome_repaired = np.copy(x_syndrome_w_err).astype(np.int32)
+            x_syndrome_repaired = self._get_hard_syndrome(x_syndrome_w_err)
 
         if self.analog_tg:  # decode with analog tg method - update channel probs to init analog nodes
             x_decoded = self._analog_tg_decoding(
@@ -438,6 +438,12 @@ class SingleShotSimulator:
 
         return x_decoded, z_decoded
 
+    def _get_hard_syndrome(self, syndrome_w_err: NDArray[Any]) -> NDArray[np.int32]:
+        """Returns the binary syndrome, thresholded if the given syndrome is analog."""
+        if self.analog_info or self.analog_tg:
+            return get_binary_from_analog(syndrome_w_err)
+        return np.copy(syndrome_w_err).astype(np.int32)
+
     def _meta_code_decoding(
         self,
         syndrome_w_err: NDArray[np.float64],
-- 
2.43.0


From 1749c0215ec7b98ce42d3cafd14da2a5db6b974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:11 +0000
Subject: [PATCH 46/79] fix: threshold analog syndromes before single-stage
 decoding with analog information

---
 .../simulators/simulation.py                         | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 926ab32..9a4934d 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -27,7 +27,6 @@ from ..utils.simulation_utils import (
     get_binary_from_analog,
     get_noisy_analog_syndrome,
     get_sigma_from_syndr_er,
-    get_signed_from_binary,
     get_virtual_check_init_vals,
     is_logical_err,
     set_seed,
@@ -318,7 +317,7 @@ class SingleShotSimulator:
             )
             it = analog_tg_decoder.iter
         else:
-            decoded = standard_decoder.decode(syndrome_w_err)
+            decoded = standard_decoder.decode(self._get_hard_syndrome(syndrome_w_err))
             it = standard_decoder.iter
         return decoded, it
 
@@ -348,13 +347,10 @@ class SingleShotSimulator:
                 sigma=sigma,
             )
         else:
-            if self.analog_info:
-                meta_bin = (meta_pcm @ get_binary_from_analog(syndrome_w_err)) % 2
-                meta_syndr = get_signed_from_binary(meta_bin)  # for AI decoder we need {-1,+1} syndrome as input
-            else:
-                meta_syndr = (meta_pcm @ syndrome_w_err) % 2
+            hard_syndrome = self._get_hard_syndrome(syndrome_w_err)
+            meta_syndr = (meta_pcm @ hard_syndrome) % 2
 
-            ss_syndr = np.hstack((syndrome_w_err, meta_syndr))
+            ss_syndr = np.hstack((hard_syndrome, meta_syndr))
             # only first n bit are data, the other are virtual nodes and can be discarded for estimate
             decoded = ss_bpd.decode(ss_syndr)[: self.n]
         return decoded, ss_bpd.iter
-- 
2.43.0


From 6eea1bc0fd2f109bc58c24a7c36040a45fb82675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 47/79] fix: run quasi-single-shot simulations without analog
 information

---
 .../simulators/quasi_single_shot_v2.py                      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
index 78183ba..750aba7 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
@@ -150,6 +150,7 @@ class QssSimulator:
         channel_probs[self.check_block_size :] = np.array(self.syndr_err_channel.tolist() * (self.repetitions))
 
         # If we do ATG decoding, initialize sigma (syndrome noise strength)
+        self.sigma = 0.0
         if self.analog_tg:
             self.sigma = get_sigma_from_syndr_er(
                 self.syndr_err_channel[0]  # x/z + y
@@ -173,7 +174,7 @@ class QssSimulator:
     def _decode_multiround(
         self,
         syndrome_mat: NDArray[np.int_],
-        analog_syndr_mat: NDArray[np.float64],
+        analog_syndr_mat: NDArray[np.float64] | None,
         last_round: bool = False,
     ) -> tuple[Any, NDArray[np.int32], NDArray[np.float64], int]:
         return decode_multiround(
@@ -195,8 +196,9 @@ class QssSimulator:
         # each column == measurement result of a single timestep
         syndrome_mat: NDArray[np.int32] = np.zeros((self.num_checks, self.repetitions), dtype=np.int32)
 
+        analog_syndr_mat: NDArray[np.float64] | None = None
         if self.analog_tg:
-            analog_syndr_mat: NDArray[np.float64] = np.zeros((self.num_checks, self.repetitions), dtype=np.float64)
+            analog_syndr_mat = np.zeros((self.num_checks, self.repetitions), dtype=np.float64)
 
         err: NDArray[np.int32] = np.zeros(self.num_qubits, dtype=np.int32)
         cnt = 0  # counter for syndrome_mat
-- 
2.43.0


From d942ccb1f3f0a34991d0560a01a88a359ce2b69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 48/79] fix: do not carry the perfect last round over to the
 windows of later samples

---
 .../simulators/memory_experiment_v2.py                      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
index b4ea3de..e78a936 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
@@ -118,9 +118,11 @@ def decode_multiround(
 
         decoder = get_updated_decoder(decoding_method, decoder, new_channel, h3d)
 
-    elif last_round:
+    elif last_round or decoding_method == "bposd":
+        # the BP+OSD decoder still has the channel of the last decoded window
         new_channel = np.copy(channel_probs)
-        new_channel[-pcm.shape[0] :] = 1e-15
+        if last_round:
+            new_channel[-pcm.shape[0] :] = 1e-15
 
         decoder = get_updated_decoder(decoding_method, decoder, new_channel, h3d)
 
-- 
2.43.0


From ec2b05645a85ccead1602ef278d23b110ccd44d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 49/79] fix: do not apply the time correction of the commit
 region to the syndrome of the next window

---
 .../simulators/memory_experiment_v2.py            | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
index e78a936..ce5c5e5 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
@@ -133,29 +133,18 @@ def decode_multiround(
 
     # extract space correction, first repetitions * n entire
     space_correction = decoded[: pcm.shape[1] * repetitions].reshape((repetitions, pcm.shape[1])).T
-    # extract time correction
 
     if last_round is False:
-        # this corresponds to the decoding on the second block of the H3D matrix
-        time_correction = decoded[pcm.shape[1] * repetitions :].reshape((repetitions, pcm.shape[0])).T
-
-        # append time correction with zeros
-        time_correction = np.hstack((time_correction, np.zeros((pcm.shape[0], 1), dtype=np.int32)))
-
         # correct only in the commit region
         decoded = (np.cumsum(space_correction, 1) % 2)[:, region_size - 1]
 
         #  get the syndrome according to the correction
         corr_syndrome = (pcm @ decoded) % 2
 
-        # propagate the syndrome correction through the tentative region
+        # propagate the syndrome correction through the tentative region; the recorded syndromes of that region are
+        # not affected by measurement errors in the commit region, hence there is no time-like correction to apply
         syndrome[:, region_size:] = ((syndrome[:, region_size:] + corr_syndrome[:, None]) % 2).astype(np.int32)
 
-        # apply the time correction of round region_size - 1 to the syndrome at the beginning of the tentative region
-        syndrome[:, region_size] = ((syndrome[:, region_size] + time_correction[:, region_size - 1]) % 2).astype(
-            np.int32
-        )
-
     else:
         # correct in the commit and tentative region as the last round stabilizer is perfect
         decoded = (np.cumsum(space_correction, 1) % 2)[:, -1]
-- 
2.43.0


From 0390b08bf1ee03f4a53a4fa7a9e0bb3c0b439815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 50/79] fix: decode the final state of quasi-single-shot
 simulations for every number of rounds

---
 .../simulators/quasi_single_shot_v2.py                      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
index 750aba7..af2462e 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
@@ -235,6 +235,12 @@ class QssSimulator:
 
             cnt += 1  # move to next column of syndrome matrix
 
+            if rnd == self.rounds - 1:  # complete the last window with the perfect syndrome
+                syndrome_mat[:, cnt:] = syndrome[:, None]
+                if analog_syndr_mat is not None:
+                    analog_syndr_mat[:, cnt:] = analog_syndrome[:, None]
+                cnt = self.repetitions
+
             if cnt == self.repetitions:  # if we have filled the syndrome matrix, decode
                 if rnd != (self.rounds - 1):  # if not last round, decode and move syndrome
                     cnt = self.repetitions // 2  # reset counter to start of tentative region
-- 
2.43.0


From 18d7608f28bc366bb1c2a95d5f030fd9bbf8482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 51/79] fix: do not round down the average number of BP
 iterations per round

---
 .../simulators/quasi_single_shot_v2.py                      | 6 +++---
 .../analog_information_decoding/utils/simulation_utils.py   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
index af2462e..978903c 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
@@ -155,7 +155,7 @@ class QssSimulator:
             self.sigma = get_sigma_from_syndr_er(
                 self.syndr_err_channel[0]  # x/z + y
             )  # assumes all sigmas are the same
-        self.bp_iterations = 0
+        self.bp_iterations = 0.0
         if self.decoding_method == "bposd":
             self.decoder = bposd_decoder(
                 parity_check_matrix=self.H3D,
@@ -252,7 +252,7 @@ class QssSimulator:
                         last_round=False,
                     )
                     # we compute the average for all rounds since this equals a single sample
-                    self.bp_iterations += int(bp_iters / self.rounds)
+                    self.bp_iterations += bp_iters / self.rounds
                     err = (err + corr) % 2
                     syndrome_mat = move_syndrome(syndrome_mat)
                     if self.analog_tg:
@@ -265,7 +265,7 @@ class QssSimulator:
                         analog_syndr_mat,
                         last_round=True,
                     )
-                    self.bp_iterations += int(bp_iters / self.rounds)
+                    self.bp_iterations += bp_iters / self.rounds
                     err = (err + corr) % 2
         return int(not is_logical_err(self.L, err))
 
diff --git a/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py b/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py
index af33225..42eeb1f 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py
@@ -253,7 +253,7 @@ def save_results(
     code_params: dict[str, int],
     bp_params: BpParams | None,
     err_side: str = "X",
-    bp_iterations: int | None = None,
+    bp_iterations: float | None = None,
 ) -> dict[str, Any]:
     """Save results of a simulation run to a json file."""
     ler, ler_eb, wer, wer_eb = calculate_error_rates(success_cnt, nr_runs, code_params)
-- 
2.43.0


From ff4d70763469ba1bd7a7a998060ac9579845e92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 52/79] fix: save intermediate results when saving after every
 sample

---
 .../simulators/analog_tannergraph_decoding.py                   | 2 +-
 .../simulators/quasi_single_shot_v2.py                          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
index a85807f..75567e4 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
@@ -236,7 +236,7 @@ class AtdSimulator:
 
             x_success_cnt += int(out[0])
             z_success_cnt += int(out[1])
-            if runs % self.save_interval == 1:
+            if (runs - 1) % self.save_interval == 0:
                 self.save_results(x_success_cnt, z_success_cnt, runs)
 
                 # check convergence only once during each save interval
diff --git a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
index 978903c..d9885ba 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
@@ -288,7 +288,7 @@ class QssSimulator:
         success_cnt = 0
         for run in range(1, samples + 1):
             success_cnt += self._single_sample()
-            if run % self.save_interval == 1:
+            if (run - 1) % self.save_interval == 0:
                 self._save_results(success_cnt, run)
                 if _check_convergence(success_cnt, run, self.code_params, self.eb_precision):
                     print("Converged")  # noqa: T201
-- 
2.43.0


From 9005de240bb07026462187e1ff59d37c3efe0163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 53/79] fix: store the bias of analog Tanner graph simulations
 in a serialisable form

---
 .../simulators/analog_tannergraph_decoding.py                   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
index 75567e4..2a878af 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
@@ -15,6 +15,7 @@ from ..utils.data_utils import (
     BpParams,
     calculate_error_rates,
     is_converged,
+    replace_inf,
 )
 
 if TYPE_CHECKING:
@@ -305,6 +306,7 @@ class AtdSimulator:
         }
 
         output.update(self.input_values)
+        output["bias"] = replace_inf(output["bias"])
         with Path(self.outfile).open(mode="w", encoding=locale.getpreferredencoding(False)) as f:
             json.dump(output, f, ensure_ascii=False, indent=4, default=lambda o: o.__dict__)
         return output
-- 
2.43.0


From de1cc9c9b32247c093c19842313e3275c130e619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 54/79] fix: draw the noise of analog information simulations
 from the seeded generator

---
 .../utils/simulation_utils.py                      | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py b/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py
index 42eeb1f..14ba63b 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py
@@ -17,9 +17,13 @@ if TYPE_CHECKING:
     from numpy.typing import NDArray
 
 
-def set_seed(value: float) -> None:
-    """The appropriate way to set seeds when numba is used."""
+_RNG: list[np.random.Generator] = [np.random.default_rng()]
+
+
+def set_seed(value: int) -> None:
+    """Set the seed of all noise drawn by the functions of this module."""
     np.random.seed(value)  # noqa: NPY002
+    _RNG[0] = np.random.default_rng(value)
 
 
 def alist2numpy(fname: str) -> NDArray[np.int32]:  # current original implementation is buggy
@@ -99,7 +103,7 @@ def generate_err(
     residual_err_z = residual_err[1]
 
     for i in range(nr_qubits):
-        rand = np.random.default_rng().random()  # this returns a random float in [0,1)
+        rand = _RNG[0].random()  # this returns a random float in [0,1)
         # e.g. if err channel is p = 0.3, then an error will be applied if rand < p
         if rand < channel_probs_z[i]:  # if probability for z error high enough, rand < p, apply
             # if there is a z error on the i-th bit, flip the bit but take residual error into account
@@ -166,7 +170,7 @@ def generate_syndr_err(channel_probs: NDArray[np.float64]) -> NDArray[np.int32]:
     error: NDArray[np.int32] = np.zeros_like(channel_probs, dtype=np.int32)
 
     for i, p in np.ndenumerate(channel_probs):
-        rand = np.random.default_rng().random()
+        rand = _RNG[0].random()
 
         if rand < p:
             error[i] = 1
@@ -187,7 +191,7 @@ def get_noisy_analog_syndrome(perfect_syndr: NDArray[np.int_], sigma: float) ->
     ).astype(float)
 
     # sample from Gaussian with zero mean and sigma std. dev: ~N(0, sigma_sq)
-    return np.array(np.random.default_rng().normal(loc=sgns, scale=sigma, size=perfect_syndr.shape)).astype(np.float64)
+    return np.array(_RNG[0].normal(loc=sgns, scale=sigma, size=perfect_syndr.shape)).astype(np.float64)
 
 
 def error_channel_setup(
-- 
2.43.0


From 2bba0d1f0a4d0d42f7b768c725842722328b07f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 55/79] fix: compute the error bar of the word error rate from
 the logical error rate

---
 .../analog_information_decoding/utils/data_utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index edfde22..fff1b74 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -69,6 +69,13 @@ def load_data(
     return data
 
 
+def _word_error_rate_eb(logical_err_rate: float, logical_err_rate_eb: float, code_k: int) -> float:
+    """Propagates the error bar of the logical error rate to the word error rate."""
+    if logical_err_rate >= 1.0:
+        return 0.0
+    return float(logical_err_rate_eb * ((1 - logical_err_rate) ** (1 / code_k - 1)) / code_k)
+
+
 def calculate_error_rates(
     success_cnt: int, runs: int, code_params: dict[str, int]
 ) -> tuple[float, float, float, float]:
@@ -76,9 +83,7 @@ def calculate_error_rates(
     logical_err_rate = 1.0 - (success_cnt / runs)
     logical_err_rate_eb = np.sqrt((1 - logical_err_rate) * logical_err_rate / runs)
     word_error_rate = 1.0 - (1 - logical_err_rate) ** (1 / code_params["k"])
-    word_error_rate_eb = (
-        logical_err_rate_eb * ((1 - logical_err_rate_eb) ** (1 / code_params["k"] - 1)) / code_params["k"]
-    )
+    word_error_rate_eb = _word_error_rate_eb(logical_err_rate, logical_err_rate_eb, code_params["k"])
     return (
         logical_err_rate,
         logical_err_rate_eb,
@@ -202,7 +207,7 @@ def _update_error_rates(success_cnt: int, runs: int, code_k: int) -> tuple[float
     logical_err_rate = 1.0 - (success_cnt / runs)
     logical_err_rate_eb = np.sqrt((1 - logical_err_rate) * logical_err_rate / runs)
     word_error_rate = 1.0 - (1 - logical_err_rate) ** (1 / code_k)
-    word_error_rate_eb = logical_err_rate_eb * ((1 - logical_err_rate_eb) ** (1 / code_k - 1)) / code_k
+    word_error_rate_eb = _word_error_rate_eb(logical_err_rate, logical_err_rate_eb, code_k)
     return (
         logical_err_rate,
         logical_err_rate_eb,
-- 
2.43.0


From c3a840b186b53f332b59679e9efecacf6aae01cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 56/79] fix: claim result files atomically and in the folder of
 their parameters

---
 .../utils/data_utils.py                           | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index fff1b74..ba10061 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -160,19 +160,20 @@ def create_outpath(
         if "sigma" in kwargs:
             path += f"per_{kwargs['data_err_rate']:.3e}_sigma_{kwargs['sigma']:.3e}/"
         if "z_sigma" in kwargs:
-            path += f"per_{kwargs['data_err_rate']:.3e}_x_sigma_{kwargs['x_sigma']:.3e}_z_sigma_{kwargs['z_sigma']:.3e}"
+            path += f"per_{kwargs['data_err_rate']:.3e}_x_sigma_{kwargs['x_sigma']:.3e}_z_sigma_{kwargs['z_sigma']:.3e}/"
     else:
         path += f"per_{kwargs['data_err_rate']:.3e}_ser_{kwargs['syndr_err_rate']:.3e}/"
 
     Path(path).mkdir(parents=True, exist_ok=True)
 
-    f_loc = path + f"id_{identifier}.json"
-    while Path(f_loc).exists():
-        identifier += 1
+    while True:
         f_loc = path + f"id_{identifier}.json"
-
-    Path(f_loc).touch()
-    return f_loc
+        try:
+            Path(f_loc).touch(exist_ok=False)
+        except FileExistsError:
+            identifier += 1
+        else:
+            return f_loc
 
 
 def replace_inf(lst: list[str]) -> list[str]:
-- 
2.43.0


From b975e13ae2b41740c46dd987b9868ee496cfaf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 57/79] fix: merge result files of folders given by a relative
 path

---
 .../utils/data_utils.py                       | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index ba10061..92f89d7 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -371,16 +371,14 @@ def merge_json_files(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                file_path = folder_path / filename
-                with file_path.open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
@@ -411,15 +409,14 @@ def merge_json_files_x(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
@@ -450,8 +447,7 @@ def merge_json_files_z(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
 
         if not folder_path.is_dir():
             continue
@@ -459,7 +455,7 @@ def merge_json_files_z(input_path: str) -> None:
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
@@ -490,15 +486,14 @@ def merge_json_files_xz(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
-- 
2.43.0


From a1ae58e652e15bbfbe760091d392fee85463c6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 58/79] fix: keep the merged X counts when results of both
 sides are combined

---
 src/mqt/qecc/analog_information_decoding/utils/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index 92f89d7..bc764d5 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -523,7 +523,7 @@ def _combine_xz_data(xdata: dict[str, Any] | None, zdata: dict[str, Any] | None)
         # print(xdata)
         xdata["x_runs"] = xdata.pop("nr_runs")
         zdata["z_runs"] = zdata.pop("nr_runs")
-        xdata.update(zdata)
+        xdata.update({key: value for key, value in zdata.items() if not key.startswith("x_")})
         return xdata
     if xdata:
         xdata["x_runs"] = xdata.pop("nr_runs")
-- 
2.43.0


From c984c84fc6352276ca9570e5f22ff2dfac83b399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 59/79] fix: count the BP iterations of each simulation
 campaign separately

---
 .../simulators/analog_tannergraph_decoding.py                   | 2 ++
 .../simulators/quasi_single_shot_v2.py                          | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
index 2a878af..5d9aea0 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
@@ -232,6 +232,8 @@ class AtdSimulator:
         """Run the simulation."""
         x_success_cnt = 0
         z_success_cnt = 0
+        self.x_bp_iterations = 0
+        self.z_bp_iterations = 0
         for runs in range(1, samples + 1):
             out = self.single_sample()
 
diff --git a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
index d9885ba..4cce0f6 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
@@ -286,6 +286,7 @@ class QssSimulator:
     def run(self, samples: int = 1) -> dict[str, Any]:
         """Returns single data point."""
         success_cnt = 0
+        self.bp_iterations = 0.0
         for run in range(1, samples + 1):
             success_cnt += self._single_sample()
             if (run - 1) % self.save_interval == 0:
-- 
2.43.0


From f739c0fa93e5ed9495066d69efada8626f504e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 60/79] fix: recognise logical errors of color codes

---
 src/mqt/qecc/codes/color_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/color_code.py b/src/mqt/qecc/codes/color_code.py
index 3f65069..8d94c97 100644
--- a/src/mqt/qecc/codes/color_code.py
+++ b/src/mqt/qecc/codes/color_code.py
@@ -63,4 +63,4 @@ class ColorCode(CSSCode):
 
     def check_if_logical_error(self, residual: npt.NDArray[np.int_]) -> bool:
         """Check if the residual is a logical error."""
-        return (self.L @ residual % 2).any() is True
+        return bool((self.L @ residual % 2).any())
-- 
2.43.0


From befe35b4b64d6f6cf352504367f540e6d9780bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 61/79] fix: compare the row spaces of both check matrices in
 is_self_dual

---
 src/mqt/qecc/codes/css_code.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qecc/codes/css_code.py b/src/mqt/qecc/codes/css_code.py
index 5373ba0..a5f08de 100644
--- a/src/mqt/qecc/codes/css_code.py
+++ b/src/mqt/qecc/codes/css_code.py
@@ -136,11 +136,10 @@ class CSSCode(StabilizerCode):
 
     def is_self_dual(self) -> bool:
         """Check if the code is self-dual."""
-        if self.Hx is None or self.Hz is None:
+        if self.Hx.shape[0] == 0 or self.Hz.shape[0] == 0:
             return False
-        return bool(
-            self.Hx.shape[0] == self.Hz.shape[0] and mod2.rank(self.Hx) == mod2.rank(np.vstack([self.Hx, self.Hz]))
-        )
+        rank_x, rank_z = mod2.rank(self.Hx), mod2.rank(self.Hz)
+        return bool(rank_x == rank_z == mod2.rank(np.vstack([self.Hx, self.Hz])))
 
     @staticmethod
     def _check_valid_check_matrices(Hx: npt.NDArray[np.int8] | None, Hz: npt.NDArray[np.int8] | None) -> None:  # noqa: N803
-- 
2.43.0


From 25ed70c48409f1e9f3dfa3a53c8ca6e306059426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 62/79] fix: compare Paulis modulo stabilizers in
 stabilizer_equivalent

---
 src/mqt/qecc/codes/stabilizer_code.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 88832ea..671cf56 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -99,9 +99,8 @@ class StabilizerCode:
 
     def stabilizer_equivalent(self, p1: Pauli, p2: Pauli) -> bool:
         """Check if two Pauli strings are equivalent up to stabilizers of the code."""
-        v1 = pauli_to_binary(p1)
-        v2 = pauli_to_binary(p2)
-        return bool(mod2.rank(np.vstack((self.generators, v1, v2))) == mod2.rank(np.vstack((self.generators, v1))))
+        difference = (pauli_to_symplectic_vec(p1) + pauli_to_symplectic_vec(p2)) % 2
+        return bool(mod2.rank(np.vstack((self.symplectic_matrix, difference))) == mod2.rank(self.symplectic_matrix))
 
     @staticmethod
     def _check_stabilizer_generators(generators: npt.NDArray[np.int8] | list[str]) -> None:
-- 
2.43.0


From 4215e171fe7bfea5c3323f293a824faf832b3ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 63/79] fix: do not count signs as independent generators of
 stabilizer codes

---
 src/mqt/qecc/codes/stabilizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 671cf56..d6f2ae1 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -48,7 +48,7 @@ class StabilizerCode:
         self.generators = paulis_to_binary(generators)
         self.symplectic_matrix = self.generators[:, :-1]  # discard the phase
         self.phases = self.generators[:, -1]
-        self.k = self.n - mod2.rank(self.generators)
+        self.k = self.n - mod2.rank(self.symplectic_matrix)
 
         if distance is not None and distance <= 0:
             msg = "Distance must be a positive integer."
-- 
2.43.0


From 004fed786b483cfd5d08a8b0ce09774add981881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:55 +0000
Subject: [PATCH 64/79] fix: compare the qubits of signed and unsigned
 stabilizer generators

---
 src/mqt/qecc/codes/stabilizer_code.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index d6f2ae1..1bb2e8b 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -108,15 +108,13 @@ class StabilizerCode:
         if len(generators) == 0:
             msg = "Stabilizer code must have at least one generator."
             raise InvalidStabilizerCodeError(msg)
-        if not all(len(generators[0]) == len(g) for g in generators):
-            msg = "All stabilizer generators must have the same length."
+        if isinstance(generators[0], str) and not all(is_pauli_string(g) for g in generators):
+            msg = "When providing stabilizer generators as strings, they must be valid Pauli strings."
             raise InvalidStabilizerCodeError(msg)
 
-        if not isinstance(generators[0], str):
-            return
-
-        if not all(is_pauli_string(g) for g in generators):
-            msg = "When providing stabilizer generators as strings, they must be valid Pauli strings."
+        n_qubits = get_n_qubits_from_pauli(generators[0])
+        if not all(get_n_qubits_from_pauli(g) == n_qubits for g in generators):
+            msg = "All stabilizer generators must have the same length."
             raise InvalidStabilizerCodeError(msg)
 
     def _check_code_correct(self) -> None:
-- 
2.43.0


From 2a7647ae23b82a658f2a07d6ee8860c19e03e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:55 +0000
Subject: [PATCH 65/79] fix: refuse logical operators that do not form pairs

---
 src/mqt/qecc/codes/stabilizer_code.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 1bb2e8b..65770db 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -153,8 +153,14 @@ class StabilizerCode:
             msg = "Logical X-operators must commute with the stabilizer generators."
             raise InvalidStabilizerCodeError(msg)
 
+        if not all_commute(self.Lz_symplectic, self.Lz_symplectic) or not all_commute(
+            self.Lx_symplectic, self.Lx_symplectic
+        ):
+            msg = "Logical operators of the same type must commute."
+            raise InvalidStabilizerCodeError(msg)
+
         commutations = symplectic_matrix_product(self.Lz_symplectic, self.Lx_symplectic)
-        if not np.all(np.sum(commutations, axis=1) == 1):
+        if not np.all(np.sum(commutations, axis=0) == 1) or not np.all(np.sum(commutations, axis=1) == 1):
             msg = "Every logical X-operator must anti-commute with exactly one logical Z-operator."
             raise InvalidStabilizerCodeError(msg)
 
-- 
2.43.0


From 909e31c7b369871bf8ad0513c508a06b1b31b80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 66/79] fix: refuse stabilizer generators that do not commute

---
 src/mqt/qecc/codes/stabilizer_code.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 65770db..85d12f6 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -48,6 +48,9 @@ class StabilizerCode:
         self.generators = paulis_to_binary(generators)
         self.symplectic_matrix = self.generators[:, :-1]  # discard the phase
         self.phases = self.generators[:, -1]
+        if not all_commute(self.symplectic_matrix, self.symplectic_matrix):
+            msg = "Stabilizer generators must commute."
+            raise InvalidStabilizerCodeError(msg)
         self.k = self.n - mod2.rank(self.symplectic_matrix)
 
         if distance is not None and distance <= 0:
-- 
2.43.0


From 3d67ee6c25de5a3d12d9a38fcb4e82c688c4210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 67/79] fix: respect signs when comparing and hashing
 stabilizer codes

---
 src/mqt/qecc/codes/stabilizer_code.py | 32 +++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 85d12f6..7ff644f 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -77,15 +77,14 @@ class StabilizerCode:
 
     def __hash__(self) -> int:
         """Compute a hash for the stabilizer code."""
-        return hash(int.from_bytes(self.generators.tobytes(), sys.byteorder))
+        return hash(_reduced_generators(self.generators).tobytes())
 
     def __eq__(self, other: object) -> bool:
         """Check if two stabilizer codes are equal."""
         if not isinstance(other, StabilizerCode):
             return NotImplemented
-        rnk = mod2.rank(self.generators)
-        return bool(
-            rnk == mod2.rank(other.generators) and rnk == mod2.rank(np.vstack((self.generators, other.generators)))
+        return self.n == other.n and np.array_equal(
+            _reduced_generators(self.generators), _reduced_generators(other.generators)
         )
 
     def get_syndrome(self, error: Pauli) -> npt.NDArray:
@@ -201,6 +200,31 @@ def binary_to_pauli_string(b: npt.NDArray) -> str:
     return f"{'' if phase == 0 else '-'}" + "".join(pauli)
 
 
+def _reduced_generators(generators: npt.NDArray) -> npt.NDArray[np.int8]:
+    """Reduce commuting Paulis in binary representation to the unique reduced basis of the group they generate.
+
+    The signs follow the multiplication of the Paulis. If the group contains -1, the last row is this element.
+    """
+    rows = np.array(generators, dtype=np.int8)
+    n = rows.shape[1] // 2
+    rank = 0
+    for col in range(2 * n):
+        candidates = np.flatnonzero(rows[rank:, col])
+        if len(candidates) == 0:
+            continue
+        rows[[rank, rank + candidates[0]]] = rows[[rank + candidates[0], rank]]
+        targets = np.flatnonzero(rows[:, col])
+        targets = targets[targets != rank]
+        x1, z1 = rows[rank, :n], rows[rank, n:-1]
+        x2, z2 = rows[targets, :n], rows[targets, n:-1]
+        # powers of i picked up by multiplying the Paulis of each qubit
+        powers = x1 * (1 - z1) * z2 * (2 * x2 - 1) + z1 * (1 - x1) * x2 * (1 - 2 * z2) + x1 * z1 * (z2 - x2)
+        rows[targets] ^= rows[rank]
+        rows[targets, -1] ^= (powers.sum(axis=1, dtype=int) % 4 // 2).astype(np.int8)
+        rank += 1
+    return np.vstack((rows[:rank], rows[rank:][rows[rank:, -1] == 1][:1]))
+
+
 def is_pauli_string(p: str) -> bool:
     """Check if a string is a valid Pauli string."""
     return len(p) > 0 and all(c in {"I", "X", "Y", "Z"} for c in p[1:]) and p[0] in {"+", "-", "I", "X", "Y", "Z"}
-- 
2.43.0


From 74713a1633cef077b581c88ba73d0f9cde4352f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 68/79] fix: refuse stabilizer generators with contradictory
 signs

---
 src/mqt/qecc/codes/stabilizer_code.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 7ff644f..89eff40 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -52,6 +52,9 @@ class StabilizerCode:
             msg = "Stabilizer generators must commute."
             raise InvalidStabilizerCodeError(msg)
         self.k = self.n - mod2.rank(self.symplectic_matrix)
+        if len(_reduced_generators(self.generators)) > self.n - self.k:
+            msg = "Stabilizer generators must not generate the negative identity."
+            raise InvalidStabilizerCodeError(msg)
 
         if distance is not None and distance <= 0:
             msg = "Distance must be a positive integer."
-- 
2.43.0


From 76bf9ed096d5d5d3f7e4c494f35df670a6433637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:56 +0000
Subject: [PATCH 69/79] fix: check for stabilizers of codes with checks of one
 type only

---
 src/mqt/qecc/codes/css_code.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/codes/css_code.py b/src/mqt/qecc/codes/css_code.py
index a5f08de..1af38fe 100644
--- a/src/mqt/qecc/codes/css_code.py
+++ b/src/mqt/qecc/codes/css_code.py
@@ -104,7 +104,8 @@ class CSSCode(StabilizerCode):
 
     def check_if_x_stabilizer(self, pauli: npt.NDArray[np.int8]) -> bool:
         """Check if the Pauli is a stabilizer."""
-        assert self.Hx is not None
+        if self.Hx.shape[0] == 0:
+            return not np.any(pauli)
         return bool(mod2.rank(np.vstack((self.Hx, pauli))) == mod2.rank(self.Hx))
 
     def check_if_logical_z_error(self, residual: npt.NDArray[np.int8]) -> bool:
@@ -113,7 +114,8 @@ class CSSCode(StabilizerCode):
 
     def check_if_z_stabilizer(self, pauli: npt.NDArray[np.int8]) -> bool:
         """Check if the Pauli is a stabilizer."""
-        assert self.Hz is not None
+        if self.Hz.shape[0] == 0:
+            return not np.any(pauli)
         return bool(mod2.rank(np.vstack((self.Hz, pauli))) == mod2.rank(self.Hz))
 
     def stabilizer_eq_x_error(self, error_1: npt.NDArray[np.int8], error_2: npt.NDArray[np.int8]) -> bool:
-- 
2.43.0


From f0b0d43c61707a5e2c56d6fb641bb3a963ec17df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:36 +0000
Subject: [PATCH 70/79] fix: build bivariate bicycle codes on the lattice of
 their construction

---
 src/mqt/qecc/codes/bb_codes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/bb_codes.py b/src/mqt/qecc/codes/bb_codes.py
index 049bcdf..09279ea 100644
--- a/src/mqt/qecc/codes/bb_codes.py
+++ b/src/mqt/qecc/codes/bb_codes.py
@@ -67,7 +67,7 @@ def _cyclic_matrix_sum(x_terms: list[int], y_terms: list[int], l_: int, m: int)
 
 
 def _cyclic_code_check_matrix(
-    m: int, l_: int, a_terms: tuple[list[int], list[int]], b_terms: tuple[list[int], list[int]]
+    l_: int, m: int, a_terms: tuple[list[int], list[int]], b_terms: tuple[list[int], list[int]]
 ) -> tuple[npt.NDArray[np.int8], npt.NDArray[np.int8]]:
     a = _cyclic_matrix_sum(a_terms[0], a_terms[1], l_, m) % 2
     b = _cyclic_matrix_sum(b_terms[0], b_terms[1], l_, m) % 2
-- 
2.43.0


From a33829d0b3e36e6d97daa60876d81d5eafc839be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:43 +0000
Subject: [PATCH 71/79] fix: 3D code constructor can be used without computing
 distances

_store_code_params called todense on matrices that are dense already, and
the matrices were not saved unless logical operators were asked for.
---
 .../code_construction/sparse_code_constructor.py             | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
index 66c2d8a..a0e4e7a 100644
--- a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
+++ b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
@@ -167,10 +167,9 @@ def _compute_distances(hx: NDArray[np.int32], hz: NDArray[np.int32], codename: s
         file.write(json.dumps(code_dict))
 
 
-def _store_code_params(hx: csr_matrix, hz: csr_matrix, codename: str) -> None:
+def _store_code_params(hx: NDArray[np.int_], hz: NDArray[np.int_], codename: str) -> None:
     """Store code parameters in file."""
     code_dict = {}
-    hx, hz = hx.todense(), hz.todense()
     _m, n = hx.shape
     code_k = n - mod2.rank(hx) - mod2.rank(hz)
     code_dict["n"] = n
@@ -205,6 +204,8 @@ def create_code(
     if compute_logicals:
         lx, lz = code_constructor._compute_logicals(hx.todense(), hz.todense())  # noqa: SLF001
         save_code(hx=hx, hz=hz, mz=mz, codename=codename, lx=lx, lz=lz)
+    else:
+        save_code(hx=hx, hz=hz, mz=mz, codename=codename)
 
     if compute_distance:
         _compute_distances(hx.todense(), hz.todense(), codename)
-- 
2.43.0


From 10f0df84a2e738e2bc6d52c4355038c425f4abce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:43 +0000
Subject: [PATCH 72/79] fix: single-shot distances are printed under the names
 the code constructor reads

---
 .../code_construction/compute_distances.sh                  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/code_construction/compute_distances.sh b/src/mqt/qecc/analog_information_decoding/code_construction/compute_distances.sh
index 2b6e4b5..5575407 100644
--- a/src/mqt/qecc/analog_information_decoding/code_construction/compute_distances.sh
+++ b/src/mqt/qecc/analog_information_decoding/code_construction/compute_distances.sh
@@ -46,8 +46,8 @@ zcode := CheckMatCode(parityCheckMatrix, GF(2));
 
 
 
-# Print("dMx = ", MinimumDistance(xcode), "\n"); only works for small codes quickly
-Print("dMx = ", MinimumDistanceLeon(xcode), "\n"); #https://gap-packages.github.io/guava/doc/chap4_mj.html#X8170B52D7C154247:~:text=4.8%2D4%20MinimumDistanceLeon
-Print("dMz = ", MinimumDistanceLeon(zcode), "\n");
+# Print("dMX = ", MinimumDistance(xcode), "\n"); only works for small codes quickly
+Print("dMX = ", MinimumDistanceLeon(xcode), "\n"); #https://gap-packages.github.io/guava/doc/chap4_mj.html#X8170B52D7C154247:~:text=4.8%2D4%20MinimumDistanceLeon
+Print("dMZ = ", MinimumDistanceLeon(zcode), "\n");
 
 EOF
-- 
2.43.0


From d17d55c53ba71c7b1bb44750bf121d9b131a3f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:43 +0000
Subject: [PATCH 73/79] fix: failure of the distance computation is reported
 instead of a truncated number being stored

---
 .../code_construction/code_constructor.py                       | 2 +-
 .../code_construction/sparse_code_constructor.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/code_construction/code_constructor.py b/src/mqt/qecc/analog_information_decoding/code_construction/code_constructor.py
index 72bab43..6976cb8 100644
--- a/src/mqt/qecc/analog_information_decoding/code_construction/code_constructor.py
+++ b/src/mqt/qecc/analog_information_decoding/code_construction/code_constructor.py
@@ -137,7 +137,7 @@ def save_code(
 def run_compute_distances(codename: str) -> None:
     """Run compute distances bash script."""
     path = "generated_codes/" + codename
-    subprocess.run(["bash", "compute_distances.sh", path], check=False)  # noqa: S603, S607
+    subprocess.run(["bash", "compute_distances.sh", path], check=True)  # noqa: S603, S607
 
 
 def _compute_distances(hx: NDArray[np.int32], hz: NDArray[np.int32], codename: str) -> None:
diff --git a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
index a0e4e7a..91afe3b 100644
--- a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
+++ b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
@@ -146,7 +146,7 @@ def save_code(
 def run_compute_distances(codename: str) -> None:
     """Run compute distances bash script."""
     path = "/codes/generated_codes/" + codename
-    subprocess.run(["bash", "compute_distances_3D.sh", path], check=False)  # noqa: S603, S607
+    subprocess.run(["bash", "compute_distances_3D.sh", path], check=True)  # noqa: S603, S607
 
 
 def _compute_distances(hx: NDArray[np.int32], hz: NDArray[np.int32], codename: str) -> None:
-- 
2.43.0


From ec0c1123ce59a2a33b3a258f2b1b4c82abd2f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:54 +0000
Subject: [PATCH 74/79] fix: stored state preparation circuits do what their
 names say

- surface d=3, |+>: the verification measured a stabilizer generator and
  missed undetected weight-two errors
- hamming |+>: a gate before the ancilla's Hadamard made the verification random
- surface d=3 and hamming |0>: non-fault-tolerant circuits contained (broken)
  verification
---
 .../circuits/hamming/plus_ft_heuristic_opt.qasm |  2 +-
 .../circuits/hamming/zero_non_ft_heuristic.qasm | 17 -----------------
 .../circuits/hamming/zero_non_ft_heuristic.stim |  5 +----
 .../plus_ft_heuristic_heuristic.qasm            |  3 ++-
 .../plus_ft_heuristic_heuristic.stim            |  2 +-
 .../plus_ft_heuristic_opt.qasm                  |  3 ++-
 .../plus_ft_heuristic_opt.stim                  |  2 +-
 .../zero_non_ft_heuristic.qasm                  |  4 ----
 .../zero_non_ft_heuristic.stim                  |  2 +-
 9 files changed, 9 insertions(+), 31 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm
index 19cae23..6d022ae 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm
@@ -40,9 +40,9 @@ h x_anc[0];
 cx x_anc[0],q[5];
 cx x_anc[0],q[10];
 cx x_anc[0],q[12];
-cx x_anc[1],q[1];
 h x_anc[0];
 h x_anc[1];
+cx x_anc[1],q[1];
 cx x_anc[1],q[3];
 cx x_anc[1],q[8];
 cx x_anc[1],q[14];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.qasm
index 67383fb..9c3baff 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.qasm
@@ -1,8 +1,6 @@
 OPENQASM 2.0;
 include "qelib1.inc";
 qreg q[15];
-qreg z_anc[2];
-creg z_c[2];
 h q[0];
 h q[1];
 h q[3];
@@ -29,18 +27,3 @@ cx q[5],q[13];
 cx q[4],q[12];
 cx q[2],q[10];
 cx q[6],q[14];
-cx q[0],z_anc[0];
-cx q[2],z_anc[0];
-cx q[4],z_anc[0];
-cx q[6],z_anc[0];
-cx q[7],z_anc[0];
-cx q[9],z_anc[0];
-cx q[11],z_anc[0];
-cx q[13],z_anc[0];
-cx q[5],z_anc[1];
-cx q[9],z_anc[1];
-cx q[12],z_anc[1];
-cx q[13],z_anc[1];
-cx q[14],z_anc[1];
-measure z_anc[0] -> z_c[0];
-measure z_anc[1] -> z_c[1];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.stim
index 2ed65ad..175cdbe 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.stim
@@ -1,5 +1,2 @@
 H 0 1 3 7
-CX 1 2 3 5 7 11 0 2 3 4 5 6 7 9 11 13 0 4 1 5 2 6 7 8 9 10 11 12 13 14 0 8 1 9 2 10 3 11 4 12 5 13 6 14 0 15 5 16 2 15 4 15 6 15 7 15 9 15 11 15 9 16 13 15 12 16 13 16
-MR 15
-CX 14 16
-MR 16
+CX 1 2 3 5 7 11 0 2 3 4 5 6 7 9 11 13 0 4 1 5 2 6 7 8 9 10 11 12 13 14 0 8 1 9 2 10 3 11 4 12 5 13 6 14
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm
index d1e48ed..624bd4d 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm
@@ -17,7 +17,8 @@ cx q[6],q[3];
 cx q[4],q[2];
 cx q[1],q[0];
 h x_anc[0];
-cx x_anc[0],q[2];
+cx x_anc[0],q[4];
 cx x_anc[0],q[5];
+cx x_anc[0],q[6];
 h x_anc[0];
 measure x_anc[0] -> x_c[0];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim
index 98e1b25..84aad4c 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim
@@ -1,4 +1,4 @@
 H 2 4 5 6 7 9
-CX 5 1 7 3 2 1 4 3 7 8 1 0 4 2 6 3 9 2 9 5
+CX 5 1 7 3 2 1 4 3 7 8 1 0 4 2 6 3 9 4 9 5 9 6
 H 9
 MR 9
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm
index d1e48ed..f05164d 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm
@@ -17,7 +17,8 @@ cx q[6],q[3];
 cx q[4],q[2];
 cx q[1],q[0];
 h x_anc[0];
-cx x_anc[0],q[2];
+cx x_anc[0],q[3];
+cx x_anc[0],q[4];
 cx x_anc[0],q[5];
 h x_anc[0];
 measure x_anc[0] -> x_c[0];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim
index 98e1b25..0f56339 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim
@@ -1,4 +1,4 @@
 H 2 4 5 6 7 9
-CX 5 1 7 3 2 1 4 3 7 8 1 0 4 2 6 3 9 2 9 5
+CX 5 1 7 3 2 1 4 3 7 8 1 0 4 2 6 3 9 3 9 4 9 5
 H 9
 MR 9
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm
index 201bb88..8299439 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm
@@ -13,7 +13,3 @@ cx q[7],q[4];
 cx q[6],q[3];
 cx q[2],q[5];
 cx q[0],q[1];
-cx q[0],z_anc[0];
-cx q[2],z_anc[0];
-cx q[4],z_anc[0];
-cx q[5],z_anc[0];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim
index 21c90bf..5a3534b 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim
@@ -1,2 +1,2 @@
 H 0 2 5 6
-CX 0 4 5 8 0 3 5 7 0 1 2 5 6 3 7 4 0 9 2
+CX 0 4 5 8 0 3 5 7 0 1 2 5 6 3 7 4
-- 
2.43.0


From efacf048155dc908226cd0acc9a669302d0ad711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:54 +0000
Subject: [PATCH 75/79] fix: evaluation of unverified preparation circuits no
 longer evaluates verified ones

---
 .../qecc/ft_stateprep/eval/estimate_logical_error_rate.py  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py b/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
index 8d5d7db..9e8a1b4 100644
--- a/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
+++ b/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
@@ -68,7 +68,8 @@ def main() -> None:
 
     state_name = "zero" if args.zero_state else "plus"
     ft_name = "non_ft" if args.no_ver else "ft"
-    circ_file = f"{state_name}_{ft_name}_{sp_circ_name}_{ver_circ_name}.qasm"
+    circ_file = f"{state_name}_{ft_name}_{sp_circ_name}"
+    circ_file += ".qasm" if args.no_ver else f"_{ver_circ_name}.qasm"
 
     # check if file exists
     if not (prefix / code_name / circ_file).exists():
@@ -80,7 +81,9 @@ def main() -> None:
             circ = heuristic_prep_circuit(code, zero_state=args.zero_state)
 
         assert circ is not None
-        if args.naive_ver:
+        if args.no_ver:
+            qc = circ.circ
+        elif args.naive_ver:
             qc = naive_verification_circuit(circ)
         elif args.exact_ver:
             qc = gate_optimal_verification_circuit(circ, max_timeout=600)
-- 
2.43.0


From 04bb153d107fcaad995c7e6f41bddeec35dad7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:44 +0000
Subject: [PATCH 76/79] fix: result plots no longer fail when a campaign is
 incomplete

Times were drawn over all distances although only some have a result at the
error rate, and a missing error rate made the plot fail.
---
 src/mqt/qecc/cc_decoder/plots.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/cc_decoder/plots.py b/src/mqt/qecc/cc_decoder/plots.py
index 02355b6..c424e5d 100644
--- a/src/mqt/qecc/cc_decoder/plots.py
+++ b/src/mqt/qecc/cc_decoder/plots.py
@@ -25,6 +25,8 @@ min_wts_k = "min_wts_logical_err"
 def plot_ler_vs_distance(code_dict: dict[float, Any], ax: Axes, pers: list[float], logical_idx: int = 0) -> None:
     """Plot the logical error rate vs distance for different err rates."""
     for p in pers:
+        if p not in code_dict:
+            continue
         ds = []
         lers = []
         for d, ler in sorted(code_dict[p].items()):
@@ -183,7 +185,7 @@ def generate_plots(results_dir: Path, results_file: Path) -> None:
                 p_data[p]["d"].append(d)
                 p_data[p]["t"].append(mdata["avg_total_time"][i])
     for p, pdata in sorted(p_data.items()):
-        ax[2][1].plot(ds, pdata["t"], label="p=" + str(p))
+        ax[2][1].plot(pdata["d"], pdata["t"], label="p=" + str(p))
 
     ax[1][1].set_xlabel("Distance")
     ax[1][1].set_ylabel("Average time per run (microseconds)")
@@ -251,7 +253,7 @@ def generate_plots_tn(results_dir: Path, results_file: Path) -> None:
                 p_data[p]["d"].append(d)
                 p_data[p]["t"].append(t)
     for p, pdata in sorted(p_data.items()):
-        ax[1][1].plot(ds, pdata["t"], label="p=" + str(p))
+        ax[1][1].plot(pdata["d"], pdata["t"], label="p=" + str(p))
 
     ax[1][1].set_xlabel("Distance")
     ax[1][1].set_ylabel("Average time per run (microseconds)")
@@ -332,7 +334,7 @@ def generate_plots_comp(results_dir: Path, results_file: Path) -> None:
                     p_data[p]["t"].append(pdata["avg_total_time"][i])
         for p, ppdata in sorted(p_data.items()):
             ax[1].plot(
-                ds,
+                ppdata["d"],
                 ppdata["t"],
                 label="p=" + str(p) + ", " + (solver if solver == "z3" else "CASHWMaxSAT-CorePlus"),
                 color=p_to_col[p],
-- 
2.43.0


From a96ce906e35778cbd049dd095a170f689ac32427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:35 +0000
Subject: [PATCH 77/79] fix: lifted product of one protograph no longer calls a
 missing function

---
 scripts/numerics/code_construct/lifted_hgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/numerics/code_construct/lifted_hgp.py b/scripts/numerics/code_construct/lifted_hgp.py
index e522c66..fe33a3c 100755
--- a/scripts/numerics/code_construct/lifted_hgp.py
+++ b/scripts/numerics/code_construct/lifted_hgp.py
@@ -34,7 +34,7 @@ class LiftedHgp(css_code):
         self.a_m, self.a_n = self.a.shape
 
         if b is None:
-            self.b = pt.copy(self.a)
+            self.b = pt.array(self.a)
         else:
             self.b = b
 
-- 
2.43.0


From b93e2ce7cbf2d085121541d71b30baf140a15be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:20 +0000
Subject: [PATCH 78/79] fix: bias-tailored lifted product of protographs of any
 shape

---
 scripts/numerics/code_construct/lifted_hgp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/numerics/code_construct/lifted_hgp.py b/scripts/numerics/code_construct/lifted_hgp.py
index fe33a3c..e111533 100755
--- a/scripts/numerics/code_construct/lifted_hgp.py
+++ b/scripts/numerics/code_construct/lifted_hgp.py
@@ -96,11 +96,11 @@ class BiasTailoredLiftedProduct(stab_code):
         lhgp = LiftedHgp(lift_parameter, a, b)
 
         # Hadamard rotation
-        temp1 = pt.hstack([pt.zeros(lhgp.hx1_proto.shape), lhgp.hz2_proto])
-        temp2 = pt.hstack([lhgp.hx1_proto, pt.zeros(lhgp.hz2_proto.shape)])
+        temp1 = pt.hstack([pt.zeros(lhgp.hz1_proto.shape), lhgp.hz2_proto])
+        temp2 = pt.hstack([lhgp.hx1_proto, pt.zeros(lhgp.hx2_proto.shape)])
         self.hx_proto = pt.vstack([temp1, temp2])
-        temp1 = pt.hstack([lhgp.hz1_proto, pt.zeros(lhgp.hx2_proto.shape)])
-        temp2 = pt.hstack([pt.zeros(lhgp.hz1_proto.shape), lhgp.hx2_proto])
+        temp1 = pt.hstack([lhgp.hz1_proto, pt.zeros(lhgp.hz2_proto.shape)])
+        temp2 = pt.hstack([pt.zeros(lhgp.hx1_proto.shape), lhgp.hx2_proto])
         self.hz_proto = pt.vstack([temp1, temp2])
 
         super().__init__(
-- 
2.43.0


From ed25a99a42111d6057293e2ef273e77075f9d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:56 +0000
Subject: [PATCH 79/79] fix: two-stage decoding reports the iterations its
 decoders made

---
 .../qecc/analog_information_decoding/simulators/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 9a4934d..da68a41 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -428,9 +428,13 @@ class SingleShotSimulator:
                 bit_err_channel=self.z_bit_err_channel + self.y_bit_err_channel,
                 sigma=self.sigma_z,
             )
+            self.x_bp_iters = self.x_abpd.iter
+            self.z_bp_iters = self.z_abpd.iter
         else:
             x_decoded = self.x_bpd.decode(x_syndrome_repaired)
             z_decoded = self.z_bpd.decode(z_syndrome_repaired)
+            self.x_bp_iters = self.x_bpd.iter
+            self.z_bp_iters = self.z_bpd.iter
 
         return x_decoded, z_decoded
 
-- 
2.43.0

