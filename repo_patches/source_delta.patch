From 67571f066b921142677f784a37d387e68a060d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:07 +0000
Subject: [PATCH 01/41] fix: drop values of the old pattern in
 BaseSparseMatrix::setSparsityInfo

A matrix that already had values kept them (array of the old size) when a compressed
SparsityInfo was attached: stale values were read and writes went out of bounds.
---
 src/lib/math/SparseMatrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index 92dde44..d54605f 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -340,6 +340,11 @@ void BaseSparseMatrix::compress() {
 
 void BaseSparseMatrix::setSparsityInfo(std::shared_ptr<SparsityInfo> spar_info) {
   assert(spar_info);
+  // values allocated for the previous SparsityInfo are not relevant for the new one
+  if (values) {
+    delete[] values;
+    values = nullptr;
+  }
   // use already exist SparsityInfo instance. It can in compressed = false state or already
   // compressed = true state
   si = spar_info;
-- 
2.43.0


From 6820221e0483e985cdfd521600023071f60b605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 02/41] fix: Element::assembleM adds to the mass matrix, not to
 the damping matrix

---
 src/lib/elements/element.h | 874 ++++++++++++++++++-------------------
 1 file changed, 437 insertions(+), 437 deletions(-)

diff --git a/src/lib/elements/element.h b/src/lib/elements/element.h
index 0401ff2..d1ace57 100755
--- a/src/lib/elements/element.h
+++ b/src/lib/elements/element.h
@@ -1,437 +1,437 @@
-// This file is a part of nla3d project. For information about authors and
-// licensing go to project's repository on github:
-// https://github.com/dmitryikh/nla3d 
-
-#pragma once
-#include "sys.h"
-#include <vector>
-#include <math.h>
-#include <initializer_list>
-#include <Eigen/Dense>
-
-#include "query.h"
-#include "Node.h"
-#include "math/Vec.h"
-#include "math/Mat.h"
-
-namespace nla3d {
-
-//pre-defines
-class Material;
-class FEStorage;
-
-
-// Element shapes are taken from vtk-file-formats.pdf
-enum ElementShape {
-  VERTEX = 0,
-  TWIN_VERTEX,
-  LINE,
-  TRIANGLE,
-  QUAD,
-  TETRA,
-  HEXAHEDRON,
-  WEDGE,
-  PYRAMID,
-  QUADRARIC_EDGE,
-  QUADRATIC_TRIANGLE,
-  QUADRATIC_QUAD,
-  QUADRATIC_TETRA,
-  QUADRARIC_HEXAHEDRON,
-  UNDEFINED
-};
-
-// number of dimensions in shape
-static const uint16 _shape_dim[] = {
-  0,  // VERTEX
-  0,  // TWIN_VERTEX
-  1,  // LINE
-  2,  // TRIANGLE
-  2,  // QUAD
-  3,  // TETRA
-  3,  // HEXAHEDRON
-  3,  // WEDGE
-  3,  // PYRAMID
-  2,  // QUADRARIC_EDGE
-  2,  // QUADRATIC_TRIANGLE
-  2,  // QUADRATIC_QUAD
-  3,  // QUADRATIC_TETRA
-  3   // QUADRARIC_HEXAHEDRON
-};
-
-
-// number of nodes in shape
-static const uint16 _shape_nnodes[] = {
-  1,  // VERTEX,
-  2,  // TWIN_VERTEX
-  2,  // LINE
-  3,  // TRIANGLE
-  4,  // QUAD
-  4,  // TETRA
-  8,  // HEXAHEDRON
-  6,  // WEDGE
-  5,  // PYRAMID
-  3,  // QUADRARIC_EDGE
-  6,  // QUADRATIC_TRIANGLE
-  8,  // QUADRATIC_QUAD
-  10, // QUADRATIC_TETRA
-  20  // QUADRARIC_HEXAHEDRON
-};
-
-
-// Element base class
-// All FE should be derived from that class. The class provide interface for building stiffness,
-// damping and inertia matrices (methods buildK(), buildC(), buildM()), for get element results
-// (methods getScalar(...), getVector(...), getTensor(...)), for update element state after solution
-// iteration (method update()).
-class Element {
-  public: 
-    Element ();
-    virtual ~Element();
-
-    // get element number, as it is stored in FEStorage. Numbers start from 1.
-    uint32 getElNum();
-    // return number of nodes for the element
-    uint16 getNNodes();
-    // return number of dimensions (0D, 1D, 2D, 3D) occupied by element shape. 
-    uint16 getDim();
-    // return element shape
-    ElementShape getShape();
-    // return element type
-    ElementType getType();
-    // return node number (as it stored in FEStorage) of the i-th node in the element
-    uint32& getNodeNumber (uint16 num);
-    // return the FEStorage to which element belongs
-    FEStorage& getStorage();
-    // return order of integration scheme used in the particular element for integration over volume
-    uint16 getIntegrationOrder();
-    // set the integration order for the element
-    void setIntegrationOrder(uint16 _nint); // нельзя вызывать после выполнения функции pre() (начало решения)
-
-    // heart of the element class
-    // TODO: comment massively here
-    virtual void pre()=0;
-    virtual void buildK()=0;
-    virtual void buildC();
-    virtual void buildM();
-    virtual void update()=0;
-
-    // The methods below are getters to receive solution information related to elements (like
-    // stresses, strains, volume and so on). The first argument is a pointer on return value. Please
-    // note, that result of the function times scale will be added to the pointer's value (*scalar
-    // += result * scale, in particular case). query is a value from enum shows with particular
-    // result should be returned. gp is a number of Gaussian point, if gp == GP_MEAN then the
-    // result will be averaged over the element based on current integration scheme.
-    // The methods return true if the query is relevant for the element and false if the element
-    // can't return asked query code.
-    virtual bool getScalar(double* scalar, scalarQuery query,
-                           uint16 gp = GP_MEAN, const double scale = 1.0);
-    virtual bool getVector(math::Vec<3>* vector, vectorQuery query,
-                           uint16 gp = GP_MEAN, const double scale = 1.0);
-    virtual bool getTensor(math::MatSym<3>* tensor, tensorQuery query,
-                           uint16 gp = GP_MEAN, const double scale = 1.0);
-
-    Element& operator= (const Element& from);
-
-    //in-out operation:
-    void print (std::ostream& out);
-
-    // some general purpose assemble procedures. Particular element realization could have it own
-    // assembly procedure.
-    template <uint16 dimM>
-    void assembleK(math::MatSym<dimM> &Ke, std::initializer_list<Dof::dofType> _nodeDofs);
-    template <uint16 dimM>
-    void assembleC(math::MatSym<dimM> &Ce, std::initializer_list<Dof::dofType> _nodeDofs);
-    template <uint16 dimM>
-    void assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofType> _nodeDofs);
-
-    template <uint16 dimM>
-    void assembleK(math::MatSym<dimM> &Ke, math::Vec<dimM> &Fe,
-                   std::initializer_list<Dof::dofType> _nodeDofs);
-
-    void assembleK(Eigen::Ref<Eigen::MatrixXd> Ke, std::initializer_list<Dof::dofType> _nodeDofs);
-
-    friend class FEStorage;
-  protected:
-
-    ElementType type = ElementType::UNDEFINED;
-    ElementShape shape = ElementShape::UNDEFINED;
-    uint16 intOrder = 0; // number of int points overall
-    uint32 elNum = 0;
-    uint32 *nodes = nullptr;
-    FEStorage* storage = nullptr;
-};
-
-
-//Element geometry class
-class ElementVERTEX : public Element {
-  public:
-    ElementVERTEX() {
-      shape = ElementShape::VERTEX;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementVERTEX& operator= (const ElementVERTEX& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-class ElementTWIN_VERTEX : public Element {
-  public:
-    ElementTWIN_VERTEX() {
-      shape = ElementShape::TWIN_VERTEX;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementTWIN_VERTEX& operator= (const ElementTWIN_VERTEX& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-class ElementLINE : public Element {
-  public:
-    ElementLINE() {
-      shape = ElementShape::LINE;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementLINE& operator= (const ElementLINE& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-class ElementTRIANGLE : public Element {
-  public:
-    ElementTRIANGLE() {
-      shape = ElementShape::TRIANGLE;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementTRIANGLE& operator= (const ElementTRIANGLE& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-
-class ElementQUAD : public Element {
-  public:
-    ElementQUAD () {
-      shape = ElementShape::QUAD;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementQUAD& operator= (const ElementQUAD& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-
-class ElementTETRA : public Element {
-  public:
-    ElementTETRA() {
-      shape = ElementShape::TETRA;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementTETRA& operator= (const ElementTETRA& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-
-class ElementHEXAHEDRON : public Element {
-  public:
-    ElementHEXAHEDRON() {
-      shape = ElementShape::HEXAHEDRON;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementHEXAHEDRON& operator= (const ElementHEXAHEDRON& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-
-class ElementWEDGE : public Element {
-  public:
-    ElementWEDGE() {
-      shape = ElementShape::WEDGE;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementWEDGE& operator= (const ElementWEDGE& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-} // namespace nla3d
-
-// 'dirty' hack to avoid include loops (element-vs-festorage)
-#include "FEStorage.h"
-
-namespace nla3d {
-
-template <uint16 dimM>
-void Element::assembleK(math::MatSym<dimM> &Ke, std::initializer_list<Dof::dofType> _nodeDofs) {
-  assert (nodes != NULL);
-  double* Ke_p = Ke.ptr();
-  std::vector<Dof::dofType> nodeDof(_nodeDofs);
-  uint16 dim = static_cast<uint16> (_nodeDofs.size());
-  assert (getNNodes() * dim == dimM);
-
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-      for (uint16 j=i; j < getNNodes(); j++) {
-        for (uint16 dj=0; dj < dim; dj++) {
-          if ((i==j) && (dj<di)) {
-            continue;
-          } else {
-            storage->addValueK(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ke_p);
-            Ke_p++;
-          }
-        }
-      }
-    }
-  }
-}
-
-
-template <uint16 dimM>
-void Element::assembleC(math::MatSym<dimM> &Ce, std::initializer_list<Dof::dofType> _nodeDofs) {
-  assert (nodes != NULL);
-  double* Ce_p = Ce.ptr();
-  std::vector<Dof::dofType> nodeDof(_nodeDofs);
-  uint16 dim = static_cast<uint16> (_nodeDofs.size());
-  assert (getNNodes() * dim == dimM);
-
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-      for (uint16 j=i; j < getNNodes(); j++) {
-        for (uint16 dj=0; dj < dim; dj++) {
-          if ((i==j) && (dj<di)) {
-            continue;
-          } else {
-            storage->addValueC(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ce_p);
-            Ce_p++;
-          }
-        }
-      }
-    }
-  }
-}
-
-
-template <uint16 dimM>
-void Element::assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofType> _nodeDofs) {
-  assert (nodes != NULL);
-  double* Me_p = Me.ptr();
-  std::vector<Dof::dofType> nodeDof(_nodeDofs);
-  uint16 dim = static_cast<uint16> (_nodeDofs.size());
-  assert (getNNodes() * dim == dimM);
-
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-      for (uint16 j=i; j < getNNodes(); j++) {
-        for (uint16 dj=0; dj < dim; dj++) {
-          if ((i==j) && (dj<di)) {
-            continue;
-          } else {
-            storage->addValueC(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Me_p);
-            Me_p++;
-          }
-        }
-      }
-    }
-  }
-}
-
-
-template <uint16 dimM>
-void Element::assembleK(math::MatSym<dimM> &Ke, math::Vec<dimM> &Fe, std::initializer_list<Dof::dofType> _nodeDofs) {
-  assert (nodes != NULL);
-  double* Ke_p = Ke.ptr();
-  std::vector<Dof::dofType> nodeDof(_nodeDofs);
-  uint16 dim = static_cast<uint16> (_nodeDofs.size());
-  assert (getNNodes() * dim == dimM);
-
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-      for (uint16 j=i; j < getNNodes(); j++) {
-        for (uint16 dj=0; dj < dim; dj++) {
-          if ((i==j) && (dj<di)) {
-            continue;
-          } else {
-            storage->addValueK(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ke_p);
-            Ke_p++;
-          }
-        }
-      }
-    }
-  }
-
-  double* Fe_p = Fe.ptr();
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-            storage->addValueF(nodes[i], nodeDof[di], *Fe_p);
-            Fe_p++;
-    }
-  }
-}
-
-
-inline uint16 Element::getNNodes() {
-  return _shape_nnodes[shape];
-}
-
-
-inline uint16 Element::getDim() {
-  return _shape_dim[shape];
-}
-
-
-inline ElementShape Element::getShape() {
-  return shape;
-}
-
-inline ElementType Element::getType() {
-  return type;
-
-}
-
-
-// & is used here because this function is called such this:
-// el->getNodeNumber(0) = 1234;
-inline uint32& Element::getNodeNumber(uint16 num) {
-  assert(num < getNNodes());
-  assert(nodes);
-  return nodes[num];
-}
-
-
-inline uint16 Element::getIntegrationOrder() {
-  return intOrder;
-}
-
-
-inline void Element::setIntegrationOrder(uint16 _nint) {
-  intOrder = _nint; 
-}
-
-
-inline FEStorage& Element::getStorage() {
-  return *storage;
-}
-
-
-inline uint32 Element::getElNum() {
-  return elNum;
-}
-
-} // namespace nla3d
+// This file is a part of nla3d project. For information about authors and
+// licensing go to project's repository on github:
+// https://github.com/dmitryikh/nla3d 
+
+#pragma once
+#include "sys.h"
+#include <vector>
+#include <math.h>
+#include <initializer_list>
+#include <Eigen/Dense>
+
+#include "query.h"
+#include "Node.h"
+#include "math/Vec.h"
+#include "math/Mat.h"
+
+namespace nla3d {
+
+//pre-defines
+class Material;
+class FEStorage;
+
+
+// Element shapes are taken from vtk-file-formats.pdf
+enum ElementShape {
+  VERTEX = 0,
+  TWIN_VERTEX,
+  LINE,
+  TRIANGLE,
+  QUAD,
+  TETRA,
+  HEXAHEDRON,
+  WEDGE,
+  PYRAMID,
+  QUADRARIC_EDGE,
+  QUADRATIC_TRIANGLE,
+  QUADRATIC_QUAD,
+  QUADRATIC_TETRA,
+  QUADRARIC_HEXAHEDRON,
+  UNDEFINED
+};
+
+// number of dimensions in shape
+static const uint16 _shape_dim[] = {
+  0,  // VERTEX
+  0,  // TWIN_VERTEX
+  1,  // LINE
+  2,  // TRIANGLE
+  2,  // QUAD
+  3,  // TETRA
+  3,  // HEXAHEDRON
+  3,  // WEDGE
+  3,  // PYRAMID
+  2,  // QUADRARIC_EDGE
+  2,  // QUADRATIC_TRIANGLE
+  2,  // QUADRATIC_QUAD
+  3,  // QUADRATIC_TETRA
+  3   // QUADRARIC_HEXAHEDRON
+};
+
+
+// number of nodes in shape
+static const uint16 _shape_nnodes[] = {
+  1,  // VERTEX,
+  2,  // TWIN_VERTEX
+  2,  // LINE
+  3,  // TRIANGLE
+  4,  // QUAD
+  4,  // TETRA
+  8,  // HEXAHEDRON
+  6,  // WEDGE
+  5,  // PYRAMID
+  3,  // QUADRARIC_EDGE
+  6,  // QUADRATIC_TRIANGLE
+  8,  // QUADRATIC_QUAD
+  10, // QUADRATIC_TETRA
+  20  // QUADRARIC_HEXAHEDRON
+};
+
+
+// Element base class
+// All FE should be derived from that class. The class provide interface for building stiffness,
+// damping and inertia matrices (methods buildK(), buildC(), buildM()), for get element results
+// (methods getScalar(...), getVector(...), getTensor(...)), for update element state after solution
+// iteration (method update()).
+class Element {
+  public: 
+    Element ();
+    virtual ~Element();
+
+    // get element number, as it is stored in FEStorage. Numbers start from 1.
+    uint32 getElNum();
+    // return number of nodes for the element
+    uint16 getNNodes();
+    // return number of dimensions (0D, 1D, 2D, 3D) occupied by element shape. 
+    uint16 getDim();
+    // return element shape
+    ElementShape getShape();
+    // return element type
+    ElementType getType();
+    // return node number (as it stored in FEStorage) of the i-th node in the element
+    uint32& getNodeNumber (uint16 num);
+    // return the FEStorage to which element belongs
+    FEStorage& getStorage();
+    // return order of integration scheme used in the particular element for integration over volume
+    uint16 getIntegrationOrder();
+    // set the integration order for the element
+    void setIntegrationOrder(uint16 _nint); // нельзя вызывать после выполнения функции pre() (начало решения)
+
+    // heart of the element class
+    // TODO: comment massively here
+    virtual void pre()=0;
+    virtual void buildK()=0;
+    virtual void buildC();
+    virtual void buildM();
+    virtual void update()=0;
+
+    // The methods below are getters to receive solution information related to elements (like
+    // stresses, strains, volume and so on). The first argument is a pointer on return value. Please
+    // note, that result of the function times scale will be added to the pointer's value (*scalar
+    // += result * scale, in particular case). query is a value from enum shows with particular
+    // result should be returned. gp is a number of Gaussian point, if gp == GP_MEAN then the
+    // result will be averaged over the element based on current integration scheme.
+    // The methods return true if the query is relevant for the element and false if the element
+    // can't return asked query code.
+    virtual bool getScalar(double* scalar, scalarQuery query,
+                           uint16 gp = GP_MEAN, const double scale = 1.0);
+    virtual bool getVector(math::Vec<3>* vector, vectorQuery query,
+                           uint16 gp = GP_MEAN, const double scale = 1.0);
+    virtual bool getTensor(math::MatSym<3>* tensor, tensorQuery query,
+                           uint16 gp = GP_MEAN, const double scale = 1.0);
+
+    Element& operator= (const Element& from);
+
+    //in-out operation:
+    void print (std::ostream& out);
+
+    // some general purpose assemble procedures. Particular element realization could have it own
+    // assembly procedure.
+    template <uint16 dimM>
+    void assembleK(math::MatSym<dimM> &Ke, std::initializer_list<Dof::dofType> _nodeDofs);
+    template <uint16 dimM>
+    void assembleC(math::MatSym<dimM> &Ce, std::initializer_list<Dof::dofType> _nodeDofs);
+    template <uint16 dimM>
+    void assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofType> _nodeDofs);
+
+    template <uint16 dimM>
+    void assembleK(math::MatSym<dimM> &Ke, math::Vec<dimM> &Fe,
+                   std::initializer_list<Dof::dofType> _nodeDofs);
+
+    void assembleK(Eigen::Ref<Eigen::MatrixXd> Ke, std::initializer_list<Dof::dofType> _nodeDofs);
+
+    friend class FEStorage;
+  protected:
+
+    ElementType type = ElementType::UNDEFINED;
+    ElementShape shape = ElementShape::UNDEFINED;
+    uint16 intOrder = 0; // number of int points overall
+    uint32 elNum = 0;
+    uint32 *nodes = nullptr;
+    FEStorage* storage = nullptr;
+};
+
+
+//Element geometry class
+class ElementVERTEX : public Element {
+  public:
+    ElementVERTEX() {
+      shape = ElementShape::VERTEX;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementVERTEX& operator= (const ElementVERTEX& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+class ElementTWIN_VERTEX : public Element {
+  public:
+    ElementTWIN_VERTEX() {
+      shape = ElementShape::TWIN_VERTEX;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementTWIN_VERTEX& operator= (const ElementTWIN_VERTEX& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+class ElementLINE : public Element {
+  public:
+    ElementLINE() {
+      shape = ElementShape::LINE;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementLINE& operator= (const ElementLINE& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+class ElementTRIANGLE : public Element {
+  public:
+    ElementTRIANGLE() {
+      shape = ElementShape::TRIANGLE;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementTRIANGLE& operator= (const ElementTRIANGLE& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+
+class ElementQUAD : public Element {
+  public:
+    ElementQUAD () {
+      shape = ElementShape::QUAD;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementQUAD& operator= (const ElementQUAD& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+
+class ElementTETRA : public Element {
+  public:
+    ElementTETRA() {
+      shape = ElementShape::TETRA;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementTETRA& operator= (const ElementTETRA& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+
+class ElementHEXAHEDRON : public Element {
+  public:
+    ElementHEXAHEDRON() {
+      shape = ElementShape::HEXAHEDRON;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementHEXAHEDRON& operator= (const ElementHEXAHEDRON& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+
+class ElementWEDGE : public Element {
+  public:
+    ElementWEDGE() {
+      shape = ElementShape::WEDGE;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementWEDGE& operator= (const ElementWEDGE& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+} // namespace nla3d
+
+// 'dirty' hack to avoid include loops (element-vs-festorage)
+#include "FEStorage.h"
+
+namespace nla3d {
+
+template <uint16 dimM>
+void Element::assembleK(math::MatSym<dimM> &Ke, std::initializer_list<Dof::dofType> _nodeDofs) {
+  assert (nodes != NULL);
+  double* Ke_p = Ke.ptr();
+  std::vector<Dof::dofType> nodeDof(_nodeDofs);
+  uint16 dim = static_cast<uint16> (_nodeDofs.size());
+  assert (getNNodes() * dim == dimM);
+
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+      for (uint16 j=i; j < getNNodes(); j++) {
+        for (uint16 dj=0; dj < dim; dj++) {
+          if ((i==j) && (dj<di)) {
+            continue;
+          } else {
+            storage->addValueK(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ke_p);
+            Ke_p++;
+          }
+        }
+      }
+    }
+  }
+}
+
+
+template <uint16 dimM>
+void Element::assembleC(math::MatSym<dimM> &Ce, std::initializer_list<Dof::dofType> _nodeDofs) {
+  assert (nodes != NULL);
+  double* Ce_p = Ce.ptr();
+  std::vector<Dof::dofType> nodeDof(_nodeDofs);
+  uint16 dim = static_cast<uint16> (_nodeDofs.size());
+  assert (getNNodes() * dim == dimM);
+
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+      for (uint16 j=i; j < getNNodes(); j++) {
+        for (uint16 dj=0; dj < dim; dj++) {
+          if ((i==j) && (dj<di)) {
+            continue;
+          } else {
+            storage->addValueC(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ce_p);
+            Ce_p++;
+          }
+        }
+      }
+    }
+  }
+}
+
+
+template <uint16 dimM>
+void Element::assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofType> _nodeDofs) {
+  assert (nodes != NULL);
+  double* Me_p = Me.ptr();
+  std::vector<Dof::dofType> nodeDof(_nodeDofs);
+  uint16 dim = static_cast<uint16> (_nodeDofs.size());
+  assert (getNNodes() * dim == dimM);
+
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+      for (uint16 j=i; j < getNNodes(); j++) {
+        for (uint16 dj=0; dj < dim; dj++) {
+          if ((i==j) && (dj<di)) {
+            continue;
+          } else {
+            storage->addValueM(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Me_p);
+            Me_p++;
+          }
+        }
+      }
+    }
+  }
+}
+
+
+template <uint16 dimM>
+void Element::assembleK(math::MatSym<dimM> &Ke, math::Vec<dimM> &Fe, std::initializer_list<Dof::dofType> _nodeDofs) {
+  assert (nodes != NULL);
+  double* Ke_p = Ke.ptr();
+  std::vector<Dof::dofType> nodeDof(_nodeDofs);
+  uint16 dim = static_cast<uint16> (_nodeDofs.size());
+  assert (getNNodes() * dim == dimM);
+
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+      for (uint16 j=i; j < getNNodes(); j++) {
+        for (uint16 dj=0; dj < dim; dj++) {
+          if ((i==j) && (dj<di)) {
+            continue;
+          } else {
+            storage->addValueK(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ke_p);
+            Ke_p++;
+          }
+        }
+      }
+    }
+  }
+
+  double* Fe_p = Fe.ptr();
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+            storage->addValueF(nodes[i], nodeDof[di], *Fe_p);
+            Fe_p++;
+    }
+  }
+}
+
+
+inline uint16 Element::getNNodes() {
+  return _shape_nnodes[shape];
+}
+
+
+inline uint16 Element::getDim() {
+  return _shape_dim[shape];
+}
+
+
+inline ElementShape Element::getShape() {
+  return shape;
+}
+
+inline ElementType Element::getType() {
+  return type;
+
+}
+
+
+// & is used here because this function is called such this:
+// el->getNodeNumber(0) = 1234;
+inline uint32& Element::getNodeNumber(uint16 num) {
+  assert(num < getNNodes());
+  assert(nodes);
+  return nodes[num];
+}
+
+
+inline uint16 Element::getIntegrationOrder() {
+  return intOrder;
+}
+
+
+inline void Element::setIntegrationOrder(uint16 _nint) {
+  intOrder = _nint; 
+}
+
+
+inline FEStorage& Element::getStorage() {
+  return *storage;
+}
+
+
+inline uint32 Element::getElNum() {
+  return elNum;
+}
+
+} // namespace nla3d
-- 
2.43.0


From 68ad0bf19d04e9a258065a48619bf8c0b92c60fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 03/41] fix: BlockSparseSymMatrix built on another one counts
 its rows once

---
 src/lib/math/BlockSparseMatrix.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/math/BlockSparseMatrix.h b/src/lib/math/BlockSparseMatrix.h
index 5d8b2e6..aebbf9c 100644
--- a/src/lib/math/BlockSparseMatrix.h
+++ b/src/lib/math/BlockSparseMatrix.h
@@ -99,7 +99,6 @@ BlockSparseSymMatrix<nb>::BlockSparseSymMatrix(BlockSparseSymMatrix<nb>* ex) {
     for (uint16 j = i+1; j < nb; j++) {
       block(i+1, j+1)->setSparsityInfo(ex->block(i+1, j+1)->getSparsityInfo());
     }
-    total_rows += rows_in_block[i];
   }
 }
 
-- 
2.43.0


From be5945c1fc5fb2706ca6f21061667e1f09a4848a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:51 +0000
Subject: [PATCH 04/41] fix: TimeControl begins time stepping from the start
 time

---
 src/lib/FESolver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 000fcaa..5796f76 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -103,15 +103,19 @@ double TimeControl::getCurrentNormalizedTimeDelta() {
 
 
 void TimeControl::setEndTime(double _endTime) {
-  LOG_IF(currentTime > 0.0, ERROR) << "Trying to set end time = " << _endTime
+  LOG_IF(currentTime > startTime, ERROR) << "Trying to set end time = " << _endTime
       << " when solution is running (current time = " << currentTime << ")";
   endTime = _endTime;
 }
 
 
 void TimeControl::setStartTime(double _startTime) {
-  LOG_IF(currentTime > 0.0, ERROR) << "Trying to set start time = " << _startTime
+  LOG_IF(currentTime > startTime, ERROR) << "Trying to set start time = " << _startTime
       << " when solution is running (current time = " << currentTime << ")";
+  // time stepping begins from the start time
+  if (currentTime == startTime) {
+    currentTime = _startTime;
+  }
   startTime = _startTime;
 }
 
-- 
2.43.0


From edcf06ac67d68f330f2321f74cd32a5026333f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:17 +0000
Subject: [PATCH 05/41] fix: compressNumbers renumbers nodes listed out of
 order

---
 src/lib/FEReaders.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index a503562..564ec49 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -33,8 +33,12 @@ void MeshData::clear() {
 
 
 void MeshData::compressNumbers() {
-  // numbers should start from 1
-  if (nodesNumbers.size() == *std::max_element(nodesNumbers.begin(), nodesNumbers.end())) { 
+  // numbers should start from 1 and go one by one
+  bool isCompressed = true;
+  for (uint32 i = 0; i < nodesNumbers.size(); i++) {
+    isCompressed = isCompressed && nodesNumbers[i] == i + 1;
+  }
+  if (isCompressed) {
     // nothing to do
     return;
   }
-- 
2.43.0


From b0cecbc29dc681d9a0ee46c15645875ebd40b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:17 +0000
Subject: [PATCH 06/41] fix: read constraint equations with a number of terms
 other than two

---
 src/lib/FEReaders.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 564ec49..643082d 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -564,8 +564,8 @@ bool readCdbFile(std::string filename, MeshData& md) {
       while (n_terms > 0) {
         getLine(file, line);
         t.tokenize(line);
-        uint16 place = 6;
-        for (int i = 0; i < std::max(n_terms, 2); i++) {
+        int terms_in_row = std::min(n_terms, 2);
+        for (int i = 0; i < terms_in_row; i++) {
           uint32 node = t.tokenInt(3 + 3 * i + 0);
           Dof::dofType dof = Dof::label2dofType(t.tokens[3 + 3 * i + 1]);
           double coef = t.tokenDouble(3 + 3 * i + 2);
-- 
2.43.0


From 24bf80f4c3a641883423d30ec50c9910eb495a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:17 +0000
Subject: [PATCH 07/41] fix: read components of more than 65535 ranges

---
 src/lib/FEReaders.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 643082d..e329a9b 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -610,8 +610,8 @@ bool readCdbFile(std::string filename, MeshData& md) {
           widths.push_back(int_field);
         }
 
-        uint16 in_row = 0;
-        uint16 all = 0;
+        int in_row = 0;
+        size_t all = 0;
 
         // read all ranges and calculate overall number of entities in component list
         vector<int32> rangesVec;
-- 
2.43.0


From 4a6fd97925d285cee6f40a2742ee00d24da4b6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 08/41] fix: Newmark velocity update weights the old and the
 new acceleration as it should

---
 src/lib/FESolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 5796f76..3eac0b4 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -621,7 +621,7 @@ void LinearTransientFESolver::solve() {
 
     // restore derivatives
     vecDDUnext = a0 * (vecUnext - vecU) - a2 * vecDU - a3 * vecDDU;
-    vecDUnext = vecDU + a6 * vecDDUnext + a7 * vecDDU;
+    vecDUnext = vecDU + a6 * vecDDU + a7 * vecDDUnext;
 
     vecU = vecUnext;
     vecDU = vecDUnext;
-- 
2.43.0


From 1a0577c4c8a0d301c7566067a8b19cbd384b5d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 09/41] fix: transient solver takes prescribed non-zero dof
 values into account

---
 src/lib/FESolver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 3eac0b4..e7d096d 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -608,6 +608,7 @@ void LinearTransientFESolver::solve() {
   while (curTime <= time1) {
     for (;;) {
       rhs = vecFsl + vecRsl;
+      matBTVprod(*(matK->block(1, 2)), vecUc, -1.0, rhs);
       matBVprod(*(matM->block(2)), a0*vecUsl + a2*vecDUsl + a3*vecDDUsl, 1.0, rhs);
       matBVprod(*(matC->block(2)), a1*vecUsl + a4*vecDUsl + a5*vecDDUsl, 1.0, rhs);
 
-- 
2.43.0


From a9f9d92758cc8ce2ffc8f10dd535c808eb2de932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 10/41] fix: transient solver makes exactly the requested
 number of time steps

---
 src/lib/FESolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index e7d096d..734dda1 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -547,7 +547,7 @@ void LinearTransientFESolver::solve() {
 
   double dt = (time1 - time0) / numberOfTimesteps;
   double curTime = time0 + dt;
-  uint16 curTimestep = 1;
+  uint32 curTimestep = 1;
   // initialize parameters of Newmark procedure
   a0 = 1.0 / (alpha * dt * dt);
   a1 = delta / (alpha * dt);
@@ -605,7 +605,7 @@ void LinearTransientFESolver::solve() {
   eqSolver->factorizeEquations(&matKmod);
 
   // timestepping
-  while (curTime <= time1) {
+  while (curTimestep <= numberOfTimesteps) {
     for (;;) {
       rhs = vecFsl + vecRsl;
       matBTVprod(*(matK->block(1, 2)), vecUc, -1.0, rhs);
-- 
2.43.0


From e376345a0962f00dcb9ddbb80d4668ae51822ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:52 +0000
Subject: [PATCH 11/41] fix: deleteMpcs forgets the deleted constraints

---
 src/lib/FEStorage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 2d123fa..4445412 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -274,6 +274,7 @@ void FEStorage::deleteMpcs() {
     delete *mpc;
     mpc++;
   }
+  mpcs.clear();
 }
 
 
-- 
2.43.0


From 75e0d53f473f9af03725a4d88a4d1b581eee540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:44 +0000
Subject: [PATCH 12/41] fix: a model can be initialised and solved again

---
 src/lib/FEStorage.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 4445412..d6acb61 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -342,6 +342,16 @@ void FEStorage::initDofs() {
 		LOG(FATAL) << "No any nodes or elements";
 	}
   
+  // drop what a previous solution left: DoFs, equations, matrices and Mpcs created by collections
+  deleteSolutionData();
+  for (size_t i = 0; i < mpcCollections.size(); i++) {
+    for (auto& mpc : mpcCollections[i]->collection) {
+      mpcs.remove(mpc);
+      delete mpc;
+    }
+    mpcCollections[i]->collection.clear();
+  }
+
   nodeDofs.initDofTable(nNodes());
   elementDofs.initDofTable(nElements());
 
-- 
2.43.0


From dd72d8e794ca0a8984c5a6161e2993e8e7ec68d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:24 +0000
Subject: [PATCH 13/41] fix: reactions of a node set with different constraints
 are refused as documented

---
 src/lib/ReactionProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/ReactionProcessor.cpp b/src/lib/ReactionProcessor.cpp
index 72ab1b7..e99b16f 100755
--- a/src/lib/ReactionProcessor.cpp
+++ b/src/lib/ReactionProcessor.cpp
@@ -41,7 +41,7 @@ void ReactionProcessor::pre() {
     uint32 n = 0;
     while (sameDofsConstrained && n < nodes.size()) {
       for (uint16 d = 0; d < dofs.size(); d++) {
-        if (!storage->isNodeDofUsed(nodes[n], dofs[d]) && !storage->getNodeDof(nodes[n], dofs[d])->isConstrained) {
+        if (!storage->isNodeDofUsed(nodes[n], dofs[d]) || !storage->getNodeDof(nodes[n], dofs[d])->isConstrained) {
           LOG(FATAL) << "Different dofs are constrained in the node set. Autochoosing of dofs is failed";
           sameDofsConstrained = false;
           break;
-- 
2.43.0


From da14d487e61bdb61df118e80d0c3a178c7b51100 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:19:27 +0000
Subject: [PATCH 14/41] fix: plane stress modulus of TRIANGLE4 is E/(1-my^2)

---
 src/lib/elements/TRIANGLE4.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/elements/TRIANGLE4.cpp b/src/lib/elements/TRIANGLE4.cpp
index 41e2d7a..3792365 100644
--- a/src/lib/elements/TRIANGLE4.cpp
+++ b/src/lib/elements/TRIANGLE4.cpp
@@ -111,7 +111,7 @@ void ElementTRIANGLE4::makeC (math::MatSym<3> &C) {
     }
     //Plane stress state
     if (state == PlaneState::Stress){
-      const double A = E*(1.-my*my);
+      const double A = E/(1.-my*my);
       C.comp(0,0) = 1.*A;
       C.comp(0,1) = my*A; 
       C.comp(1,1) = 1.*A;
-- 
2.43.0


From da3ccaebd17b5f29986d01aaaefb3bd08a03c44b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:19:27 +0000
Subject: [PATCH 15/41] fix: TRIANGLE4 strains and stresses do not pile up over
 updates

---
 src/lib/elements/TRIANGLE4.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/elements/TRIANGLE4.cpp b/src/lib/elements/TRIANGLE4.cpp
index 3792365..ffc6ecc 100644
--- a/src/lib/elements/TRIANGLE4.cpp
+++ b/src/lib/elements/TRIANGLE4.cpp
@@ -68,8 +68,10 @@ void ElementTRIANGLE4::update () {
     U[i*2 + 1] = storage->getNodeDofSolution(getNodeNumber(i), Dof::UY);
   }
   // restore strains
+  strains.zero();
   math::matBVprod(matB, U, 1.0, strains);
   // restore stresses
+  stress.zero();
   math::matBVprod(matC, strains, 1.0, stress);
 }
 
-- 
2.43.0


From 1ff89f2979b812a89a9896e48bfbe65c92500e60 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:19:27 +0000
Subject: [PATCH 16/41] fix: conductivity matrix of TETRA1 has the sign of the
 other thermal elements

---
 src/lib/elements/TETRA1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/TETRA1.cpp b/src/lib/elements/TETRA1.cpp
index 3465078..4f99260 100644
--- a/src/lib/elements/TETRA1.cpp
+++ b/src/lib/elements/TETRA1.cpp
@@ -131,9 +131,9 @@ void ElementTETRA1::makeB(math::Mat<3,4> &B)
 }
 
 void ElementTETRA1::makeC (math::MatSym<3> &C) {
-  C.comp(0,0) = -k;
-  C.comp(1,1) = -k;
-  C.comp(2,2) = -k;
+  C.comp(0,0) = k;
+  C.comp(1,1) = k;
+  C.comp(2,2) = k;
 }
 
 bool ElementTETRA1::getScalar(double* scalar, scalarQuery query, uint16 gp, const double scale) {
-- 
2.43.0


From a395aa84af47a2c3576f95c578b1f65e05f90626 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:19:27 +0000
Subject: [PATCH 17/41] fix: GRADT of TETRA1 is the temperature gradient, not
 its opposite

---
 src/lib/elements/TETRA1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/elements/TETRA1.cpp b/src/lib/elements/TETRA1.cpp
index 4f99260..0729a04 100644
--- a/src/lib/elements/TETRA1.cpp
+++ b/src/lib/elements/TETRA1.cpp
@@ -150,7 +150,7 @@ bool  ElementTETRA1::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
       *vector += flux*scale;
       return true;
     case vectorQuery::GRADT:
-      *vector += flux*(scale/k);
+      *vector += flux*(-scale/k);
       return true;
   }  
   return false;
-- 
2.43.0


From 8d307904f1014280b19eabcb978256053f3c12af Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:19:27 +0000
Subject: [PATCH 18/41] fix: TETRA0 does not take results for initial strains
 when assembled again

---
 src/lib/elements/TETRA0.cpp | 20 ++++++++++++++------
 src/lib/elements/TETRA0.h   |  7 +++++++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/lib/elements/TETRA0.cpp b/src/lib/elements/TETRA0.cpp
index b449d51..72687cb 100644
--- a/src/lib/elements/TETRA0.cpp
+++ b/src/lib/elements/TETRA0.cpp
@@ -43,7 +43,13 @@ void ElementTETRA0::buildK() {
 
   math::matBTDBprod(matB, matC, vol, matKe);
 
-  if ((alpha != 0. && T != 0.) || strains.qlength() != 0. || stress.qlength() != 0.){
+  // stress and strains hold the user's initial values until update() stores results there
+  if (!hasResults) {
+    initStress = stress;
+    initStrains = strains;
+  }
+
+  if ((alpha != 0. && T != 0.) || initStrains.qlength() != 0. || initStress.qlength() != 0.){
     //node forces calculations
     math::Vec<12> Fe;
     Fe.zero();
@@ -52,23 +58,23 @@ void ElementTETRA0::buildK() {
     matBTC = matB.transpose()*matC.toMat();
 
     //mechanical initial stress
-    if (stress.qlength() != 0.){
-      strains.zero();
+    math::Vec<6> strains0 = initStrains;
+    if (initStress.qlength() != 0.){
       math::Mat<6,6> matP;
       matP = matC.toMat().inv(matC.toMat().det());
-      strains = matP*stress;
+      strains0 = matP*initStress;
     }
     
     //termal initial strains
     if (alpha != 0. && T != 0.){
       //temp node forces
       math::Vec<6> tStrains = {alpha*T,alpha*T,alpha*T,0.,0.,0.};
-      strains = strains + tStrains;
+      strains0 = strains0 + tStrains;
     }
 
 
     //mechanical initial strains
-    math::matBVprod(matBTC, strains, -vol, Fe);
+    math::matBVprod(matBTC, strains0, -vol, Fe);
 
     assembleK(matKe, Fe, {Dof::UX, Dof::UY, Dof::UZ});
   }
@@ -99,6 +105,8 @@ void ElementTETRA0::update () {
     U[i*3 + 2] = storage->getNodeDofSolution(getNodeNumber(i), Dof::UZ);
   }
   
+  hasResults = true;
+
   //restore strains
   strains.zero();
   math::matBVprod(matB, U, -1.0, strains);
diff --git a/src/lib/elements/TETRA0.h b/src/lib/elements/TETRA0.h
index c37124c..bae489f 100644
--- a/src/lib/elements/TETRA0.h
+++ b/src/lib/elements/TETRA0.h
@@ -60,6 +60,13 @@ public:
   //postproc procedures
   bool getScalar(double* scalar, scalarQuery code, uint16 gp, const double scale);
   bool getTensor(math::MatSym<3>* tensor, tensorQuery code, uint16 gp, const double scale);
+
+private:
+  // initial stress and strains given by the user
+  math::Vec<6> initStress;
+  math::Vec<6> initStrains;
+  // stress and strains contain results of a solution
+  bool hasResults = false;
 };
 
 } //namespace nla3d
-- 
2.43.0


From ae352259305ad9c4b2b807da04782b7f734cd817 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:19:27 +0000
Subject: [PATCH 19/41] fix: TETRA0 results respect the scale factor

---
 src/lib/elements/TETRA0.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/lib/elements/TETRA0.cpp b/src/lib/elements/TETRA0.cpp
index 72687cb..22c9eff 100644
--- a/src/lib/elements/TETRA0.cpp
+++ b/src/lib/elements/TETRA0.cpp
@@ -208,7 +208,7 @@ void ElementTETRA0::makeC (math::MatSym<6> &C) {
 
 bool ElementTETRA0::getScalar(double* scalar, scalarQuery query, uint16 gp, const double scale) {
   if (query == scalarQuery::VOL){
-     *scalar += vol;
+     *scalar += vol*scale;
     return true;
   }
   return false;
@@ -216,27 +216,27 @@ bool ElementTETRA0::getScalar(double* scalar, scalarQuery query, uint16 gp, cons
 
 bool  ElementTETRA0::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16 gp, const double scale) {
   if (query == tensorQuery::C){
-      tensor->comp(0,0) += strains[0];
-      tensor->comp(1,1) += strains[1];
-      tensor->comp(2,2) += strains[2];
-      tensor->comp(0,1) += strains[3];
-      tensor->comp(1,2) += strains[4];
-      tensor->comp(0,2) += strains[5];
+      tensor->comp(0,0) += strains[0]*scale;
+      tensor->comp(1,1) += strains[1]*scale;
+      tensor->comp(2,2) += strains[2]*scale;
+      tensor->comp(0,1) += strains[3]*scale;
+      tensor->comp(1,2) += strains[4]*scale;
+      tensor->comp(0,2) += strains[5]*scale;
       return true;
   }
   if (query == tensorQuery::E){
-    tensor->comp(0,0) += stress[0];
-    tensor->comp(1,1) += stress[1];
-    tensor->comp(2,2) += stress[2];
-    tensor->comp(0,1) += stress[3];
-    tensor->comp(1,2) += stress[4];
-    tensor->comp(0,2) += stress[5];
+    tensor->comp(0,0) += stress[0]*scale;
+    tensor->comp(1,1) += stress[1]*scale;
+    tensor->comp(2,2) += stress[2]*scale;
+    tensor->comp(0,1) += stress[3]*scale;
+    tensor->comp(1,2) += stress[4]*scale;
+    tensor->comp(0,2) += stress[5]*scale;
     return true;
   }
   if (query == tensorQuery::TSTRAIN){
-    tensor->comp(0,0) += alpha*T;
-    tensor->comp(1,1) += alpha*T;
-    tensor->comp(2,2) += alpha*T;
+    tensor->comp(0,0) += alpha*T*scale;
+    tensor->comp(1,1) += alpha*T*scale;
+    tensor->comp(2,2) += alpha*T*scale;
     tensor->comp(0,1) += 0.;
     tensor->comp(1,2) += 0.;
     tensor->comp(0,2) += 0.;
-- 
2.43.0


From 355fa0c6b110be52344bff2a1964c01717118345 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:19:44 +0000
Subject: [PATCH 20/41] fix: INTER0 works for every direction of its axis

---
 src/lib/elements/INTER0.cpp | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/src/lib/elements/INTER0.cpp b/src/lib/elements/INTER0.cpp
index 8884c3f..192bd27 100644
--- a/src/lib/elements/INTER0.cpp
+++ b/src/lib/elements/INTER0.cpp
@@ -17,35 +17,15 @@ void ElementINTER0::buildK() {
 
   Eigen::MatrixXd K(3,3);
 
-  Eigen::MatrixXd T(3,3);
-  
   Ke.setZero();
   K.setZero();
 
-  //Произвольный линенйно независмый базис
-  math::Vec<3> s1(n[0],n[1]+1.,n[2]+1.);
-  //ортогонализаця базиса
-  math::Vec<3> proj_s1_n = n*((s1[0]*n[0]+s1[1]*n[1]+s1[2]*n[2])/n.qlength());
-  s1 = s1 - proj_s1_n;
-  math::Vec<3> s2(n[1]*s1[2]-n[2]*s1[1],n[2]*s1[0]-n[0]*s1[2],n[0]*s1[1]-n[1]*s1[0]);
-  
   n = n*(1./n.length());
-  s1 = s1*(1./s1.length());
-  s2 = s2*(1./s2.length()); 
 
-
-  T <<  s1[0],s1[1],s1[2],
-        s2[0],s2[1],s2[2],
-        n[0], n[1], n[2];
-
-  Eigen::MatrixXd invT(3,3);
-  invT = T.inverse();
-
-  K << ks , 0, 0,
-       0,  ks, 0,
-       0,  0, kn;
-
-  K = T.transpose()*K*T;
+  // kn along n, ks in every direction perpendicular to it
+  for (uint16 i = 0; i < 3; i++)
+    for (uint16 j = 0; j < 3; j++)
+      K(i,j) = (kn - ks)*n[i]*n[j] + (i == j ? ks : 0.0);
 
   Ke << K ,  -K,
        -K,    K;
-- 
2.43.0


From 34d4de3d74916f1c43c5233369e30f02f6b9af83 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:19:44 +0000
Subject: [PATCH 21/41] fix: INTER3::getTensor answers false for results it
 does not have

---
 src/lib/elements/INTER3.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/elements/INTER3.cpp b/src/lib/elements/INTER3.cpp
index 35e985d..bdef06c 100644
--- a/src/lib/elements/INTER3.cpp
+++ b/src/lib/elements/INTER3.cpp
@@ -232,6 +232,7 @@ bool ElementINTER3::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16
     tensor->comp(0,2) += 0.;
     return true;
   }
+  return false;
 }
 
 
-- 
2.43.0


From f8a612d99a908b7c88934e81c4307e2bd723a7fb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:19:44 +0000
Subject: [PATCH 22/41] fix: INTER0 and INTER3 results respect the scale factor

---
 src/lib/elements/INTER0.cpp |  6 +++---
 src/lib/elements/INTER3.cpp | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lib/elements/INTER0.cpp b/src/lib/elements/INTER0.cpp
index 192bd27..296f030 100644
--- a/src/lib/elements/INTER0.cpp
+++ b/src/lib/elements/INTER0.cpp
@@ -51,9 +51,9 @@ bool  ElementINTER0::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
 
 bool ElementINTER0::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16 gp, const double scale){
   if (query == tensorQuery::C){
-      tensor->comp(0,0) += strains[0];
-      tensor->comp(1,1) += strains[1];
-      tensor->comp(2,2) += strains[2];
+      tensor->comp(0,0) += strains[0]*scale;
+      tensor->comp(1,1) += strains[1]*scale;
+      tensor->comp(2,2) += strains[2]*scale;
       tensor->comp(0,1) += 0.;
       tensor->comp(1,2) += 0.;
       tensor->comp(0,2) += 0.;
diff --git a/src/lib/elements/INTER3.cpp b/src/lib/elements/INTER3.cpp
index bdef06c..4f84f62 100644
--- a/src/lib/elements/INTER3.cpp
+++ b/src/lib/elements/INTER3.cpp
@@ -215,18 +215,18 @@ bool  ElementINTER3::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
 
 bool ElementINTER3::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16 gp, const double scale){
   if (query == tensorQuery::C){
-      tensor->comp(0,0) += strains[0];
-      tensor->comp(1,1) += strains[1];
-      tensor->comp(2,2) += strains[2];
+      tensor->comp(0,0) += strains[0]*scale;
+      tensor->comp(1,1) += strains[1]*scale;
+      tensor->comp(2,2) += strains[2]*scale;
       tensor->comp(0,1) += 0.;
       tensor->comp(1,2) += 0.;
       tensor->comp(0,2) += 0.;
       return true;
   }
   if (query == tensorQuery::E){
-    tensor->comp(0,0) += stress[0];
-    tensor->comp(1,1) += stress[1];
-    tensor->comp(2,2) += stress[2];
+    tensor->comp(0,0) += stress[0]*scale;
+    tensor->comp(1,1) += stress[1]*scale;
+    tensor->comp(2,2) += stress[2]*scale;
     tensor->comp(0,1) += 0.;
     tensor->comp(1,2) += 0.;
     tensor->comp(0,2) += 0.;
-- 
2.43.0


From 282657f4709788bf9b089f8e2aa41495a2ddcc10 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:58:29 +0000
Subject: [PATCH 23/41] fix: tensor results in VTK files start from zero

---
 src/lib/VtkProcessor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/VtkProcessor.cpp b/src/lib/VtkProcessor.cpp
index e50040e..9369700 100755
--- a/src/lib/VtkProcessor.cpp
+++ b/src/lib/VtkProcessor.cpp
@@ -263,7 +263,10 @@ void VtkProcessor::write_cell_data(std::ofstream &file) {
 
   // write Element tensor results (only if they are requested in cellScalarQueries)
   for(auto query : cellTensorQueries) {
-    dataTensor.assign(en, MatSym<3>());
+    // MatSym isn't initialised on construction
+    MatSym<3> zeroTensor;
+    zeroTensor.zero();
+    dataTensor.assign(en, zeroTensor);
     for (uint32 i = 1; i <= storage->nElements(); i++) {
       // dataTensor[i-1].zero();
       storage->getElement(i).getTensor(&(dataTensor[i-1]), query);
-- 
2.43.0


From e2126b6a204f360ae1fb7822ff0719aca3f9143d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:12:30 +0000
Subject: [PATCH 24/41] fix: a PARDISO solver which was never used has nothing
 to release

---
 src/lib/math/EquationSolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index d0e8e43..73acaf1 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -240,6 +240,9 @@ void PARDISO_equationSolver::initializePARDISO (math::SparseSymMatrix* matrix) {
 }
 
 void PARDISO_equationSolver::releasePARDISO () {
+  // nothing was allocated yet
+  if (firstRun) return;
+
   int phase = -1;
   int n = static_cast<int> (nEq);
 
-- 
2.43.0


From f6314b39064a29d7b434ae48e1afd90d4ba4357d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:13:26 +0000
Subject: [PATCH 25/41] fix: PARDISO solver analyses a matrix with another
 pattern anew

---
 src/lib/math/EquationSolver.cpp | 17 +++++++++++++++--
 src/lib/math/EquationSolver.h   |  7 +++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index 73acaf1..72873fc 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -3,6 +3,7 @@
 // https://github.com/dmitryikh/nla3d 
 
 #include "math/EquationSolver.h"
+#include <algorithm>
 
 #ifdef NLA3D_USE_MKL
 #include <mkl.h>
@@ -166,12 +167,15 @@ void PARDISO_equationSolver::substituteEquations(math::SparseSymMatrix* matrix,
 
 void PARDISO_equationSolver::factorizeEquations(math::SparseSymMatrix* matrix) {
   TIMED_SCOPE(t, "factorizeEquations");
+  // symbolic factorization is valid only for the sparsity pattern and the type of matrix it was made for
+  if (!firstRun && !isAnalysed(matrix)) {
+    releasePARDISO();
+    firstRun = true;
+  }
   if (firstRun) {
     initializePARDISO(matrix);
   }
   firstRun = false;
-
-  CHECK(nEq == matrix->nRows());
   
 	int phase;
 
@@ -190,6 +194,13 @@ void PARDISO_equationSolver::factorizeEquations(math::SparseSymMatrix* matrix) {
 
 }
 
+bool PARDISO_equationSolver::isAnalysed (math::SparseSymMatrix* matrix) {
+  return nEq == matrix->nRows() && mtype == (isPositive ? 2 : -2) &&
+         analysedColumns.size() == matrix->nValues() &&
+         std::equal(analysedIofeir.begin(), analysedIofeir.end(), matrix->getIofeirArray()) &&
+         std::equal(analysedColumns.begin(), analysedColumns.end(), matrix->getColumnsArray());
+}
+
 void PARDISO_equationSolver::initializePARDISO (math::SparseSymMatrix* matrix) {
 	for (uint16 i = 0; i < 64; i++) {
     iparm[i]=0;
@@ -225,6 +236,8 @@ void PARDISO_equationSolver::initializePARDISO (math::SparseSymMatrix* matrix) {
 
   nEq = matrix->nRows();
   int n = static_cast<int> (nEq);
+  analysedIofeir.assign(matrix->getIofeirArray(), matrix->getIofeirArray() + nEq + 1);
+  analysedColumns.assign(matrix->getColumnsArray(), matrix->getColumnsArray() + matrix->nValues());
 
   // initialize error code
 	int error = 0; 
diff --git a/src/lib/math/EquationSolver.h b/src/lib/math/EquationSolver.h
index f0f3e89..78ac6b5 100644
--- a/src/lib/math/EquationSolver.h
+++ b/src/lib/math/EquationSolver.h
@@ -3,6 +3,7 @@
 // https://github.com/dmitryikh/nla3d 
 
 #pragma once
+#include <vector>
 #include "sys.h"
 #include "math/Mat.h"
 #include "math/SparseMatrix.h"
@@ -55,6 +56,12 @@ public:
 protected:
   void initializePARDISO (math::SparseSymMatrix* matrix);
   void releasePARDISO ();
+  // true if the symbolic factorization at hand was made for a matrix like this one
+  bool isAnalysed (math::SparseSymMatrix* matrix);
+
+  // sparsity pattern of the matrix for which the symbolic factorization was made
+  std::vector<uint32> analysedIofeir;
+  std::vector<uint32> analysedColumns;
 
   // Internal solver memory pointer pt
 	void *pt[64]; 
-- 
2.43.0


From ac180f905bbfa09294b2f9a03274945ce9884d9b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:29:51 +0000
Subject: [PATCH 26/41] fix: PARDISO solver pivots properly in indefinite
 matrices

---
 src/lib/math/EquationSolver.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index 72873fc..8f546ea 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -167,8 +167,9 @@ void PARDISO_equationSolver::substituteEquations(math::SparseSymMatrix* matrix,
 
 void PARDISO_equationSolver::factorizeEquations(math::SparseSymMatrix* matrix) {
   TIMED_SCOPE(t, "factorizeEquations");
-  // symbolic factorization is valid only for the sparsity pattern and the type of matrix it was made for
-  if (!firstRun && !isAnalysed(matrix)) {
+  // symbolic factorization is valid only for the sparsity pattern and the type of matrix it was made
+  // for. In the case of indefinite matrix it depends on the values too (scaling and matching).
+  if (!firstRun && !(isPositive && isAnalysed(matrix))) {
     releasePARDISO();
     firstRun = true;
   }
@@ -218,12 +219,14 @@ void PARDISO_equationSolver::initializePARDISO (math::SparseSymMatrix* matrix) {
 	iparm[5] = 0; //write solution into x
 	iparm[6] = 16; //default logical fortran unit number for output
 	iparm[7] = 2; //max numbers of iterative refinement steps
-	iparm[9] = 13; //pertrub the pivor elements with 1e-13
-	iparm[10] = 1; //use nonsymmetric permutation  and scaling MPS
+	iparm[9] = 8; //pertrub the pivor elements with 1e-8
+	iparm[10] = isPositive ? 0 : 1; //scaling
+	iparm[12] = isPositive ? 0 : 1; //matching: large values of indefinite matrix go close to the diagonal
 	iparm[13]=0; //output: number of perturbed pivots
 	iparm[17]=-1; //output: number of nonzeros in the factor LU
 	iparm[18]=-1; //output: MFLOPS for LU factorization
 	iparm[19] = 0; //output: number of CG Iterations
+	iparm[20] = 1; //1x1 and 2x2 (Bunch-Kaufman) pivots for indefinite matrix
 
   LOG_IF(!isSymmetric, FATAL) << "For now PARDISO_equationSolver doesn't support non-symmetric matrices";
 	if (isPositive) {
-- 
2.43.0


From abce23b61c736bd7378a8b26e1ac691a276a9d32 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:08:44 +0000
Subject: [PATCH 27/41] fix: PLANE41 wrote strain invariants past the end of
 the result

---
 src/lib/elements/PLANE41.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/PLANE41.cpp b/src/lib/elements/PLANE41.cpp
index fe31d30..b482a4b 100755
--- a/src/lib/elements/PLANE41.cpp
+++ b/src/lib/elements/PLANE41.cpp
@@ -200,9 +200,9 @@ bool ElementPLANE41::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
       CVec[M_YY] = C[gp][1];
       CVec[M_XY] = C[gp][2];
       solidmech::IC_C(CVec.ptr(), IC);
-      vector[0] += IC[0] * scale;
-      vector[1] += IC[1] * scale;
-      vector[2] += IC[2] * scale;
+      (*vector)[0] += IC[0] * scale;
+      (*vector)[1] += IC[1] * scale;
+      (*vector)[2] += IC[2] * scale;
       return true;
   }
   return false;
-- 
2.43.0


From a7bbe78cbd829840fb8567cc2e311bad376e03d3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:08:44 +0000
Subject: [PATCH 28/41] fix: Cauchy stress of PLANE41 is F*S*F^T/J, scaled as
 asked

---
 src/lib/elements/PLANE41.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/elements/PLANE41.cpp b/src/lib/elements/PLANE41.cpp
index b482a4b..1705e5e 100755
--- a/src/lib/elements/PLANE41.cpp
+++ b/src/lib/elements/PLANE41.cpp
@@ -264,7 +264,8 @@ bool  ElementPLANE41::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
       mat = dynamic_cast<Mat_Hyper_Isotrop_General*>(storage->getMaterial());
       CHECK_NOTNULL(mat);
       mat->getS_UP(6, solidmech::defaultTensorComponents, CVec.ptr(), p_e, matS.data);
-      matBTDBprod(matF, matS, 1.0/J, *tensor); //Symmetric Couchy tensor
+      matF = matF.transpose();
+      matBTDBprod(matF, matS, 1.0/J*scale, *tensor); //Symmetric Couchy tensor: F * S * F^T / J
       return true;
 
     case tensorQuery::PK2:
-- 
2.43.0


From 8343f93965070b095df38b719b98214a55da5d69 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:08:44 +0000
Subject: [PATCH 29/41] fix: SOLID81 stresses contain the pressure once

---
 src/lib/elements/SOLID81.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/lib/elements/SOLID81.cpp b/src/lib/elements/SOLID81.cpp
index a3130f4..c2c6c53 100644
--- a/src/lib/elements/SOLID81.cpp
+++ b/src/lib/elements/SOLID81.cpp
@@ -282,8 +282,6 @@ bool  ElementSOLID81::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
   Mat<3,3> matF;
   MatSym<3> matS;
   double J;
-  double cInv[6];
-  double pe;
 
   switch (query) {
     case tensorQuery::COUCHY:
@@ -301,25 +299,17 @@ bool  ElementSOLID81::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
 
       J = solidmech::J_C(C[gp].ptr());
 
-      //deviatoric part of S: Sd = S[gp]
-      //hydrostatic part of S: Sp = p * J * C^(-1)
-      solidmech::invC_C (C[gp].ptr(), J, cInv); 
-      pe = storage->getElementDofSolution(getElNum(), Dof::HYDRO_PRESSURE);
-      // TODO: it seems that S[gp] contains deviatoric + pressure already..
-      // we dont need to sum it again
+      // S[gp] contains both deviatoric and hydrostatic (p * J * C^(-1)) parts
       for (uint16 i = 0; i < 6; i++) {
-        matS.data[i] = S[gp][i] + pe * J * cInv[i];
+        matS.data[i] = S[gp][i];
       }
       matBTDBprod (matF, matS, 1.0/J*scale, *tensor); //Symmetric Couchy tensor
       return true;
 
     case tensorQuery::PK2:
-      // hydrostatic part of S: Sp = p * J * C^(-1)
-      J = solidmech::J_C(C[gp].ptr());
-      solidmech::invC_C (C[gp].ptr(), J, cInv); 
-      pe = storage->getElementDofSolution(getElNum(), Dof::HYDRO_PRESSURE);
+      // S[gp] contains both deviatoric and hydrostatic (p * J * C^(-1)) parts
       for (uint16 i = 0; i < 6; i++) {
-        tensor->data[i] += (S[gp][i] + pe * J * cInv[i]) * scale;
+        tensor->data[i] += S[gp][i] * scale;
       }
       return true;
 
-- 
2.43.0


From a89b5f048061c71814fe4d10c2ead096a502d7ad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:08:44 +0000
Subject: [PATCH 30/41] fix: strain energy of SOLID81 is the one its stresses
 derive from

---
 src/lib/elements/SOLID81.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/elements/SOLID81.cpp b/src/lib/elements/SOLID81.cpp
index c2c6c53..36bebbf 100644
--- a/src/lib/elements/SOLID81.cpp
+++ b/src/lib/elements/SOLID81.cpp
@@ -218,7 +218,8 @@ bool ElementSOLID81::getScalar(double* scalar, scalarQuery query, uint16 gp, con
     case scalarQuery::WU:
       getVector(&tmp, vectorQuery::IC, gp, 1.0);
       mat = CHECK_NOTNULL(dynamic_cast<Mat_Hyper_Isotrop_General*>(storage->getMaterial()));
-      *scalar += mat->W(tmp[0], tmp[1], tmp[2]) * scale;
+      // potential is a function of invariants of the deformation without its volumetric part
+      *scalar += mat->W(tmp[0] * pow(tmp[2], -2.0/3.0), tmp[1] * pow(tmp[2], -4.0/3.0), 1.0) * scale;
       return true;
 
     case scalarQuery::WP:
-- 
2.43.0


From a3a84cdeef92db8eff1f5504f11e0fbbb3efba86 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:59:00 +0000
Subject: [PATCH 31/41] fix: nla3d refuses a wrong number of material constants

The error was logged only, and missing constants were read past the end
of the given ones.
---
 src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 8c4d1f2..473ed8d 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -171,9 +171,11 @@ int main (int argc, char* argv[]) {
   md.compressNumbers();
 
   Material* mat = CHECK_NOTNULL (MaterialFactory::createMaterial(options::materialName));
-  if (mat->getNumC() != options::materialConstants.size())
+  if (mat->getNumC() != options::materialConstants.size()) {
     LOG(ERROR) << "Material " << options::materialName << " needs exactly " << mat->getNumC()
       << " constants (" << options::materialConstants.size() << " were provided)";
+    exit(1);
+  }
   for (uint16 i = 0; i < mat->getNumC(); i++) {
     mat->Ci(i) = options::materialConstants[i];
   }
-- 
2.43.0


From e7239bc4f1831c40cdc1a57d813ff36923d94502 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:59:00 +0000
Subject: [PATCH 32/41] fix: master node of -rigidbody is the node with that
 number in the file

The nodes are renumbered after the file was read, the number from the
command line was not.
---
 src/main.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 473ed8d..621fc97 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -168,7 +168,17 @@ int main (int argc, char* argv[]) {
   if (!readCdbFile (options::modelFilename, md)) {
     LOG(FATAL) << "Can't read FE info from " << options::modelFilename << "file. exiting..";
   }
+  // the master node of the rigid body is given by its number in the model file
+  auto master = std::find(md.nodesNumbers.begin(), md.nodesNumbers.end(), options::rigidBodyMasterNode);
+  if (options::rigidBodyMasterNode > 0 && master == md.nodesNumbers.end()) {
+    LOG(ERROR) << "There is no node " << options::rigidBodyMasterNode << " to be the master of the rigid body";
+    exit(1);
+  }
+  const size_t masterInd = master - md.nodesNumbers.begin();
   md.compressNumbers();
+  if (options::rigidBodyMasterNode > 0) {
+    options::rigidBodyMasterNode = md.nodesNumbers[masterInd];
+  }
 
   Material* mat = CHECK_NOTNULL (MaterialFactory::createMaterial(options::materialName));
   if (mat->getNumC() != options::materialConstants.size()) {
-- 
2.43.0


From d3a42777580b2f1da4a2067ddc5f4fd61d5a20f7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:01:19 +0000
Subject: [PATCH 33/41] fix: rounding of time doesn't add a loadstep

1/6 added up six times is a bit less than 1, so that with 6 (and 11, 12,
..) loadsteps the last step was divided into two.
---
 src/lib/FESolver.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 734dda1..373e59b 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -39,16 +39,18 @@ bool TimeControl::nextStep(double delta) {
   if (currentTime >= endTime) {
     return false;    
   }
+  // sum of deltas misses endTime by rounding errors, they shouldn't lead to an additional step
+  const double eps = 1.0e-6 * delta;
   // if delta bigger than endTime-currentTime
-  if (currentTime + delta >= endTime) {
+  if (currentTime + delta >= endTime - eps) {
     currentTimeDelta = endTime - currentTime;
-  } else if (currentTime + 2*delta >= endTime) {
+  } else if (currentTime + 2*delta >= endTime - eps) {
     currentTimeDelta = (endTime - currentTime)/2.0;
   } else {
     currentTimeDelta = delta;
   }
   DCHECK (currentTimeDelta > 0.0);
-  currentTime += currentTimeDelta;
+  currentTime = currentTimeDelta == endTime - currentTime ? endTime : currentTime + currentTimeDelta;
   currentEquilibriumStep = 0;
   LOG(INFO) << "***** Loadstep = " << getCurrentStep() << ", Time = "
       << getCurrentTime() << " of " << getEndTime();
-- 
2.43.0


From ef63fba0be5640569148eea2570afc1c48730872 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:26:27 +0000
Subject: [PATCH 34/41] fix: reference curve may stay at a value

Points equal to the previous one (or to -1 at the beginning) were left out,
and the comparison refused the curve because of its length.
---
 src/main.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 621fc97..ca2f43b 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -355,19 +355,14 @@ std::vector<double> readRefCurveData (std::string fileRefCurve) {
   std::ifstream file(fileRefCurve.c_str());
   std::string dummy;
   double tmp;
-  double pre_tmp = -1.0;
   std::vector<double> res;
   file >> dummy >> dummy >> dummy;
   if (dummy.compare("force") != 0) {
     LOG(ERROR) << "readRefCurveData: Expecting third column to a force column";
     exit(1);
   }
-  while (!file.eof()) {
-    file >> dummy >> dummy >> tmp;
-    if (tmp != pre_tmp) {
-      res.push_back(tmp);
-      pre_tmp = tmp;
-    }
+  while (file >> dummy >> dummy >> tmp) {
+    res.push_back(tmp);
   }
   file.close();
   return res;
-- 
2.43.0


From 953c3a91e3997c67e75f9d63cc33f2124f42a931 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 35/41] fix: a vector may be assigned a part of itself

---
 src/lib/math/Vec.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index 74eb812..e825344 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -223,10 +223,17 @@ dVec& dVec::operator=(const dVec& op) {
     return *this;
   } else if (!op.isInit()) {
     clear();
+  } else if (_size != op.size()) {
+    // op may point to a part of this vector: take its values before the memory is released
+    dVec copy(op);
+    clear();
+    data = copy.data;
+    memory_owner = copy.memory_owner;
+    _size = copy._size;
+    copy.memory_owner = false;
   } else {
-      if (_size != op.size())
-        reinit(op.size());
-      memcpy(data, op.data, sizeof(double) * op.size());
+    // op and this may point to overlapping parts of one vector
+    memmove(data, op.data, sizeof(double) * op.size());
   }
   return *this;
 }
-- 
2.43.0


From 361a35c9ccc5428bb9cafa7062f030f08e064710 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 36/41] fix: eigenvalues of matrices with equal eigenvalues

---
 src/lib/math/Mat.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/math/Mat.h b/src/lib/math/Mat.h
index 617c824..8bc7962 100755
--- a/src/lib/math/Mat.h
+++ b/src/lib/math/Mat.h
@@ -316,9 +316,12 @@ Vec<dimM>  Mat<dimM,dimN>::eigenvalues()
 	// x*x*x + a * x * x + b * x  + c == 0
 	double p = b - a * a / 3;
 	double q = 2 * a * a * a / 27 - a * b / 3 + c;
-	double A = sqrt(- 4 * p / 3); 
+	// p <= 0 and |c3phi| <= 1 for symmetric matrices, but for rounding (equal roots)
+	double A = p < 0 ? sqrt(- 4 * p / 3) : 0.0; 
  
-	double c3phi = - 4 * q / (A * A * A);
+	double c3phi = A > 0 ? - 4 * q / (A * A * A) : 1.0;
+	if (c3phi > 1.0) c3phi = 1.0;
+	if (c3phi < -1.0) c3phi = -1.0;
  
 	double phi = acos(c3phi) / 3;  
  
@@ -328,7 +331,7 @@ Vec<dimM>  Mat<dimM,dimN>::eigenvalues()
 
 	//сортируем
 	double s1,s2,s3;
-	if (root1 > root2 && root1 > root3)
+	if (root1 >= root2 && root1 >= root3)
 	{
 		s1 = root1;
 		if (root2 > root3)
@@ -342,7 +345,7 @@ Vec<dimM>  Mat<dimM,dimN>::eigenvalues()
 			s3 = root2;
 		}
 	}
-	else if (root2 > root1 && root2 > root3)
+	else if (root2 >= root1 && root2 >= root3)
 	{
 		s1 = root2;
 		if (root1 > root3)
-- 
2.43.0


From bb5870bfdf4eb456bda4fa11e24dfcdd2792e110 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 37/41] fix: assigning a dynamic matrix to itself keeps its
 values

---
 src/lib/math/Mat.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/math/Mat.h b/src/lib/math/Mat.h
index 8bc7962..2fe839e 100755
--- a/src/lib/math/Mat.h
+++ b/src/lib/math/Mat.h
@@ -503,6 +503,7 @@ public:
 	template <uint16 M> void cpVec(Vec<M> &vec, uint16 col=0);
 	dMat& operator= (const dMat &from)
 	{
+		if (this == &from) return *this;
 		resize(from.dimM, from.dimN);
 		memcpy(this->data, from.data, sizeof(double)*dimM*dimN);
 		return *this;
-- 
2.43.0


From 815b8c0019e93a31b2a8073e12825b30bd51278f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 38/41] fix: dynamic matrices may be copied to larger ones

---
 src/lib/math/Mat.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/math/Mat.h b/src/lib/math/Mat.h
index 2fe839e..53bed56 100755
--- a/src/lib/math/Mat.h
+++ b/src/lib/math/Mat.h
@@ -538,8 +538,8 @@ Mat<M,N> dMat::toMat()
 {
 	assert(M >= dimM && N >= dimN); //Mat >= dMat
 	Mat<M,N> tmp;
-	for (uint16 i = 0; i < M; i++)
-		for (uint16 j = 0; j < N; j++)
+	for (uint16 i = 0; i < dimM; i++)
+		for (uint16 j = 0; j < dimN; j++)
 			tmp[i][j] = (*this)[i][j];
 	return tmp;
 }
@@ -549,7 +549,7 @@ Vec<M> dMat::toVec(uint16 col)
 {
 	assert(M >= dimM && dimN > col); //Vec >= dMat по M 
 	Vec<M> tmp;
-	for (uint16 i = 0; i < M; i++)
+	for (uint16 i = 0; i < dimM; i++)
 		tmp[i] = (*this)[i][col];
 	return tmp;
 }
-- 
2.43.0


From ea158804b38b76711ba3e930ebbb5199f9508f3e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:59:56 +0000
Subject: [PATCH 39/41] fix: deleted Mpcs and Mpc collections leave nothing
 behind in the storage

---
 src/lib/FEStorage.cpp | 9 +++++++++
 src/lib/Mpc.h         | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index d6acb61..f0ec136 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -275,12 +275,21 @@ void FEStorage::deleteMpcs() {
     mpc++;
   }
   mpcs.clear();
+  // Mpcs of collections were in the list too
+  for (size_t i = 0; i < mpcCollections.size(); i++) {
+    mpcCollections[i]->collection.clear();
+  }
 }
 
 
 void FEStorage::deleteMpcCollections() {
 
   for (size_t i = 0; i < mpcCollections.size(); i++) {
+    // equations registered by the collection go with it
+    for (auto& mpc : mpcCollections[i]->collection) {
+      mpcs.remove(mpc);
+      delete mpc;
+    }
     delete mpcCollections[i];
   }
   mpcCollections.clear();
diff --git a/src/lib/Mpc.h b/src/lib/Mpc.h
index 22c4a5b..89ecf61 100644
--- a/src/lib/Mpc.h
+++ b/src/lib/Mpc.h
@@ -39,6 +39,7 @@ class Mpc {
 
 class MpcCollection {
   public:
+    virtual ~MpcCollection() { }
     virtual void update() = 0;
     virtual void pre() = 0;
     void printEquations(std::ostream& out);
-- 
2.43.0


From d00e1f122cef9a6e7cb4de9cca983ee8da184457 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:59:56 +0000
Subject: [PATCH 40/41] fix: a dump of matrices and vectors restores their
 values exactly

---
 src/lib/math/SparseMatrix.cpp | 5 +++--
 src/lib/math/Vec.cpp          | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index d54605f..05be41d 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -186,7 +186,8 @@ void BaseSparseMatrix::writeCoordinateTextFormat(std::ostream& out) {
   assert(values);
   assert(si->compressed);
   // we need to return back old preferences after usage
-  auto old_precision = out.precision(15);
+  // 17 significant digits: the value is restored exactly
+  auto old_precision = out.precision(16);
   auto old_flags = out.setf(std::ios_base::scientific, std::ios_base::floatfield);
   // write header: nRows, nColumns, numberOfValues
   out << si->nRows << ' ' << si->nColumns << ' ' << si->numberOfValues << std::endl;
@@ -200,7 +201,7 @@ void BaseSparseMatrix::writeCoordinateTextFormat(std::ostream& out) {
   assert(total == si->numberOfValues);
   // return back old setup
   out.precision(old_precision);
-  out.setf(old_flags);
+  out.flags(old_flags);
 }
 
 
diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index e825344..74801cd 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -260,10 +260,13 @@ bool dVec::compare(const dVec& op2, double th) {
 
 
 void dVec::writeTextFormat(std::ostream& out) {
+  // 17 significant digits: the value is restored exactly. Return back old preferences after usage
+  auto old_precision = out.precision(17);
   out << size() << std::endl;
   for (uint32 i = 0; i < size(); i++) {
     out << data[i] << std::endl;
   }
+  out.precision(old_precision);
 }
 
 
-- 
2.43.0


From 5fdef01199684c783d79d139710a21d95537f7e3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:16:50 +0000
Subject: [PATCH 41/41] fix: count time steps and iterations with 32 bits

More than 65535 steps or equilibrium iterations made the step numbers and
the cumulative number of iterations start again from zero.
---
 src/lib/FESolver.cpp | 12 ++++++------
 src/lib/FESolver.h   | 14 +++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 373e59b..0d870ed 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -11,22 +11,22 @@ using namespace ::nla3d::math;
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ //
 // TimeControl
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ //
-uint16 TimeControl::getCurrentStep() {
-  return static_cast<uint16> (convergedTimeInstances.size()+1);
+uint32 TimeControl::getCurrentStep() {
+  return static_cast<uint32> (convergedTimeInstances.size()+1);
 }
 
 
-uint16 TimeControl::getNumberOfConvergedSteps() {
-  return static_cast<uint16> (convergedTimeInstances.size());
+uint32 TimeControl::getNumberOfConvergedSteps() {
+  return static_cast<uint32> (convergedTimeInstances.size());
 }
 
 
-uint16 TimeControl::getCurrentEquilibriumStep() {
+uint32 TimeControl::getCurrentEquilibriumStep() {
   return currentEquilibriumStep;
 }
 
 
-uint16 TimeControl::getTotalNumberOfEquilibriumSteps() {
+uint32 TimeControl::getTotalNumberOfEquilibriumSteps() {
   return totalNumberOfEquilibriumSteps; 
 }
 
diff --git a/src/lib/FESolver.h b/src/lib/FESolver.h
index 2f72603..dc0f973 100644
--- a/src/lib/FESolver.h
+++ b/src/lib/FESolver.h
@@ -26,11 +26,11 @@ class PostProcessor;
 // equilibriumSteps.
 class TimeControl {
 public:
-  uint16 getCurrentStep ();
-  uint16 getNumberOfConvergedSteps ();
+  uint32 getCurrentStep ();
+  uint32 getNumberOfConvergedSteps ();
 
-  uint16 getCurrentEquilibriumStep ();
-  uint16 getTotalNumberOfEquilibriumSteps ();
+  uint32 getCurrentEquilibriumStep ();
+  uint32 getTotalNumberOfEquilibriumSteps ();
 
   bool nextStep (double delta);
   void nextEquilibriumStep ();
@@ -46,9 +46,9 @@ public:
   void setStartTime (double _startTime);
 protected:
   std::list<double> convergedTimeInstances;
-  std::list<uint16> equilibriumSteps;
-  uint16 currentEquilibriumStep = 0;
-  uint16 totalNumberOfEquilibriumSteps = 0;
+  std::list<uint32> equilibriumSteps;
+  uint32 currentEquilibriumStep = 0;
+  uint32 totalNumberOfEquilibriumSteps = 0;
   double currentTimeDelta = 0.0;
   double endTime = 1.0;
   double startTime = 0.0;
-- 
2.43.0

