// URDF edit operations: run on the library's RobotTree and on the model.
#ifndef VERIF_SIM_URDFEDITS_H
#define VERIF_SIM_URDFEDITS_H
#include "sim/urdfcheck.h"

namespace um {
enum Edit {
  E_RM_ROOT = 30, E_RM_LEAF, E_REROOT, E_TRANSPORT, E_FIX, E_FLOAT, E_FIX_CONT,
  E_SQUASH, E_SQUASH_ALL, E_MASSLESS, E_PRUNE, E_SET, E_LAST
};
inline const char *edit_name(int c) {
  static const char *n[] = {"rm_root_joint", "rm_leaf_joint", "define_as_root_link", "transport_root_link_frame",
                            "makeJointFixed", "makeJointFloating", "makeContinuousJointsFixed", "squashJointMass",
                            "squashFixedJointsMass", "makeMasslessJointsFixed", "removeSubTreeIfJoint", "edit through reference"};
  return c >= E_RM_ROOT && c < E_LAST ? n[c - E_RM_ROOT] : "?";
}
// Op n: selector, pose[7] or parameters.  The selector picks among the names
// existing when the operation runs; values >= 0.97 name something unknown.
inline Op gen_edit(Rng &r, int code) {
  Op o(code, {r.u()});
  if (code == E_TRANSPORT) rnd_pose(r, 0.9, o.n);
  else o.n.push_back(r.chance(0.15) ? r.u() : r.u() * 0.5), o.n.push_back((double)r.below(100000));
  return o;
}
inline std::string target(const Op &o, const URobot &m) {
  double u = o.num(0);
  bool link = o.code == E_REROOT;
  size_t n = link ? m.links.size() : m.joints.size();
  if (u >= 0.97 || !n) return "no such name";
  size_t i = std::min(n - 1, (size_t)(u / 0.97 * (double)n));
  if (o.code == E_RM_LEAF && o.i(2) % 3) {  // mostly real leaves
    for (size_t k = 0; k < n; ++k, i = (i + 1) % n)
      if (m.children(m.joints[i].child).empty()) break;
  }
  return link ? m.links[i].name : m.joints[i].name;
}
inline bool prune_pred(const Op &o, const std::string &joint) {
  return (double)(sim::mix((uint64_t)o.i(2), sim::hash_str(joint)) % 1000) < 1000 * o.num(1);
}
inline lib::Pose lib_pose(const UPose &p) {
  return lib::Pose(lib::Array3d{{p.xyz[0], p.xyz[1], p.xyz[2]}}, lib::Array3d{{p.rpy[0], p.rpy[1], p.rpy[2]}});
}
inline UPose op_pose(const Op &o) {
  UPose p;
  for (int i = 0; i < 3; ++i) p.xyz[i] = o.num(2 + i), p.rpy[i] = o.num(5 + i);
  return p;
}

struct EditResult {
  sim::Outcome outcome = sim::OK;
  std::vector<std::string> names;  // returned by the call
  bool has_names = false;
};
inline EditResult run_edit(lib::RobotTree &t, const Op &o, const std::string &name) {
  EditResult e;
  UPose pose = op_pose(o);
  lib::Pose lp = lib_pose(pose);
  e.outcome = sim::attempt([&] {
    switch (o.code) {
      case E_RM_ROOT: t.rm_root_joint(); break;
      case E_RM_LEAF: t.rm_leaf_joint(name); break;
      case E_REROOT: t.define_as_root_link(name); break;
      case E_TRANSPORT: t.transport_root_link_frame(lp); break;
      case E_FIX: lib::makeJointFixed(t, name); break;
      case E_FLOAT: lib::makeJointFloating(t, name); break;
      case E_FIX_CONT: e.names = lib::makeContinuousJointsFixed(t); e.has_names = true; break;
      case E_SQUASH: lib::squashJointMass(t, name); break;
      case E_SQUASH_ALL: lib::squashFixedJointsMass(t); break;
      case E_MASSLESS: e.names = lib::makeMasslessJointsFixed(t); e.has_names = true; break;
      case E_PRUNE:
        e.names = lib::removeSubTreeIfJoint(t, [&](const ptree &j) {
          sim::HarnessScope h;
          std::string n;
          attr(j, "name", n);
          return prune_pred(o, n);
        });
        e.has_names = true;
        break;
      case E_SET: {
        ptree &j = t.joint(name);
        j.put("dynamics.<xmlattr>.damping", "0.5");
        break;
      }
    }
  });
  return e;
}

// ---- reference semantics -----------------------------------------------------
// Parts whose exact text the edit may change are marked with "*".
inline void squash_model(URobot &m, int j) {
  ULink &c = m.links[m.link(m.joints[j].child)];
  if (!c.has_inertial) return;
  ULink &p = m.links[m.link(m.joints[j].parent)];
  p.has_inertial = true;
  p.itext = p.iotext = "*";
  c.has_inertial = false;
  c.itext = c.iotext = "";
}
inline void transport_model(URobot &m) {
  ULink &l = m.links[m.link(m.root())];
  l.iotext = "*";
  for (auto &e : l.elems) e.otext = "*";
  for (auto &j : m.joints)
    if (j.parent == l.name) j.otext = "*";
}
inline void post_order(const URobot &m, const std::string &l, std::vector<int> &out) {
  for (int j : m.children(l)) {
    post_order(m, m.joints[j].child, out);
    out.push_back(j);
  }
}
inline void fix_model(UJoint &j, const char *type) {
  j.type = type;
  j.atext = "";
  j.has_axis = false;
}
inline void remove_joint(URobot &m, int j) {
  int l = m.link(m.joints[j].child);
  m.joints.erase(m.joints.begin() + j);
  m.links.erase(m.links.begin() + l);
}
inline std::vector<int> path_to(const URobot &m, std::string l) {  // joints from the root down to l
  std::vector<int> r;
  while (l != m.root()) {
    int j = m.joint_of_child(l);
    if (j < 0) break;
    r.insert(r.begin(), j);
    l = m.joints[j].parent;
  }
  return r;
}
// frames: documented displacement of every link frame (new frame in old one)
typedef std::map<std::string, TF> Frames;
inline sim::Outcome model_edit(URobot &m, const Op &o, const std::string &name, std::vector<std::string> &names, Frames *fr = nullptr) {
  auto disp = [&](const std::string &l, const TF &t) {
    if (!fr) return;
    if (!fr->count(l)) (*fr)[l] = ident();
    (*fr)[l] = (*fr)[l] * t;
  };
  switch (o.code) {
    case E_RM_ROOT: {
      std::vector<int> c = m.children(m.root());
      if (c.size() != 1) return sim::THROWN;
      int l = m.link(m.root());
      m.joints.erase(m.joints.begin() + c[0]);
      m.links.erase(m.links.begin() + l);
      return sim::OK;
    }
    case E_RM_LEAF: {
      int j = m.joint(name);
      if (j < 0 || !m.children(m.joints[j].child).empty()) return sim::THROWN;
      remove_joint(m, j);
      return sim::OK;
    }
    case E_REROOT: {
      if (m.link(name) < 0) return sim::THROWN;
      std::vector<int> path = path_to(m, name);
      for (int j : path)
        if (m.joints[j].type == "floating" || m.joints[j].type == "planar") return sim::THROWN;
      for (int j : path) {
        UJoint &jt = m.joints[j];
        std::string old = jt.parent;
        TF org = jt.o.tf();
        // the actual origin, after the previous flips: only touched by the transport of its parent
        if (fr) {
          // jt.o was read before the edit; its parent's frame moved by disp since
          TF moved = fr->count("\x01" + old) ? (*fr)["\x01" + old] : ident();
          org = inv(moved) * org;
        }
        if (!jt.otext.empty()) {
          transport_model(m);
          if (fr) {
            disp(old, org);
            disp("\x01" + old, org);
          }
        }
        std::swap(m.joints[j].parent, m.joints[j].child);
        const std::string &ty = m.joints[j].type;
        if (ty == "revolute" || ty == "continuous" || ty == "prismatic") m.joints[j].atext = "*";
      }
      if (fr)
        for (auto it = fr->begin(); it != fr->end();) it = it->first[0] == '\x01' ? fr->erase(it) : std::next(it);
      return sim::OK;
    }
    case E_TRANSPORT:
      disp(m.root(), op_pose(o).tf());
      transport_model(m);
      return sim::OK;
    case E_FIX:
    case E_FLOAT: {
      int j = m.joint(name);
      if (j < 0) return sim::THROWN;
      fix_model(m.joints[j], o.code == E_FIX ? "fixed" : "floating");
      return sim::OK;
    }
    case E_FIX_CONT:
      for (int j : m.traversal())
        if (m.joints[j].type == "continuous") {
          fix_model(m.joints[j], "fixed");
          names.push_back(m.joints[j].name);
        }
      return sim::OK;
    case E_SQUASH: {
      int j = m.joint(name);
      if (j < 0) return sim::THROWN;
      squash_model(m, j);
      return sim::OK;
    }
    case E_SQUASH_ALL:
    case E_MASSLESS: {
      std::vector<int> po;
      post_order(m, m.root(), po);
      for (int j : po) {
        if (m.joints[j].type == "fixed") squash_model(m, j);
        else if (o.code == E_MASSLESS && !m.links[m.link(m.joints[j].child)].has_inertial) {
          fix_model(m.joints[j], "fixed");
          names.push_back(m.joints[j].name);
        }
      }
      return sim::OK;
    }
    case E_PRUNE: {
      std::set<std::string> cut;
      for (int j : m.traversal()) {
        int up = m.joint_of_child(m.joints[j].parent);
        if (prune_pred(o, m.joints[j].name) || (up >= 0 && cut.count(m.joints[up].name))) {
          cut.insert(m.joints[j].name);
          names.push_back(m.joints[j].name);
        }
      }
      for (auto &n : cut) remove_joint(m, m.joint(n));
      return sim::OK;
    }
    case E_SET: {
      int j = m.joint(name);
      if (j < 0) return sim::THROWN;
      m.joints[j].rest = "*";
      return sim::OK;
    }
  }
  return sim::OK;
}
inline bool txt(const std::string &want, const std::string &got) { return want == "*" || want == got; }
// The document after an edit against the model's expectation.
inline std::string same_structure(const URobot &want, const URobot &got) {
  if (want.links.size() != got.links.size()) return cat("number of links ", got.links.size(), " instead of ", want.links.size());
  if (want.joints.size() != got.joints.size()) return cat("number of joints ", got.joints.size(), " instead of ", want.joints.size());
  if (want.others != got.others) return "other elements of the document changed";
  for (size_t i = 0; i < want.links.size(); ++i) {
    const ULink &a = want.links[i], &b = got.links[i];
    if (a.name != b.name) return "link " + a.name + " replaced by " + b.name;
    if (a.rest != b.rest) return "contents of link " + a.name + " changed";
    if (a.has_inertial != b.has_inertial) return "presence of the inertial of link " + a.name;
    if (!txt(a.itext, b.itext)) return "mass or inertia of link " + a.name + " changed";
    if (!txt(a.iotext, b.iotext)) return "inertial origin of link " + a.name + " changed";
    if (a.elems.size() != b.elems.size()) return "number of visuals/collisions of link " + a.name;
    for (size_t k = 0; k < a.elems.size(); ++k)
      if (a.elems[k].rest != b.elems[k].rest || a.elems[k].visual != b.elems[k].visual || !txt(a.elems[k].otext, b.elems[k].otext))
        return "visual/collision of link " + a.name + " changed";
  }
  for (size_t i = 0; i < want.joints.size(); ++i) {
    const UJoint &a = want.joints[i], &b = got.joints[i];
    if (a.name != b.name) return "joint " + a.name + " replaced by " + b.name;
    if (a.parent != b.parent || a.child != b.child) return "links of joint " + a.name + " are " + b.parent + " -> " + b.child;
    if (a.type != b.type) return "type of joint " + a.name + " is " + b.type;
    if (!txt(a.rest, b.rest)) return "contents of joint " + a.name + " changed";
    if (!txt(a.otext, b.otext)) return "origin of joint " + a.name + " changed: " + b.otext;
    if (!txt(a.atext, b.atext)) return "axis of joint " + a.name + " changed";
  }
  return std::string();
}
// Removing these joints would leave a mimic of a removed joint (known finding).
inline bool leaves_dangling_mimic(const URobot &m, const URobot &after) {
  (void)m;
  for (auto &j : after.joints)
    if (j.has_mimic && after.joint(j.mimic) < 0) return true;
  return false;
}
}  // namespace um
#endif
