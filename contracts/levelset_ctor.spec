// ---- construction
contract LevelSet::LevelSet(width, height, moveLimit_, bandWidth_, isFixedDomain_) sig "void (unsigned int, unsigned int, double, unsigned int, bool)" {
  prop C04;
  hide hmin, swiss, wind, segd, pmin, inhole, edge, col, row, bandPos, minePos;
  requires width >= 1 && height >= 1 && width <= 30000 && height <= 30000 && bandWidth_ <= 1000000;
  exits_if bandWidth_ <= 2 || moveLimit_ <= 0 || moveLimit_ >= 1 || floor(real(width)/30 + 0.5) <= 2 || floor(real(height)/30 + 0.5) <= 2;
  ensures [settings] mesh.width == width && mesh.height == height && moveLimit == moveLimit_ && bandWidth == bandWidth_ && isFixedDomain == isFixedDomain_;
  ensures [accepted] bandWidth_ > 2 && moveLimit_ > 0 && moveLimit_ < 1;
  ensures LS_sizes(this) && M_ok(mesh);
  ensures [initial] forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == swiss(LS_nHoles(this), LS_nHolesX(this), LS_nHolesY(this), width, height, LS_nx(this, n), LS_ny(this, n), LS_edge(this, n)));
  ensures [band] LS_listed(this, mesh.nNodes) && LS_mined(this, mesh.nNodes);
  entry use prodPos(width + 1, height + 1, 30001);
}
contract LevelSet::LevelSet(width, height, holes, moveLimit_, bandWidth_, isFixedDomain_) sig "void (unsigned int, unsigned int, const std::vector<Hole> &, double, unsigned int, bool)" {
  prop C04;
  hide hmin, swiss, wind, segd, pmin, inhole, edge, col, row, bandPos, minePos;
  requires width >= 1 && height >= 1 && width <= 30000 && height <= 30000 && bandWidth_ <= 1000000 && holes.size() <= 1000000000;
  exits_if bandWidth_ <= 2 || moveLimit_ <= 0 || moveLimit_ >= 1;
  ensures [settings] mesh.width == width && mesh.height == height && moveLimit == moveLimit_ && bandWidth == bandWidth_ && isFixedDomain == isFixedDomain_;
  ensures [accepted] bandWidth_ > 2 && moveLimit_ > 0 && moveLimit_ < 1;
  ensures LS_sizes(this) && M_ok(mesh);
  ensures [initial] forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == LS_hmin(this, n, holes, holes.size()));
  ensures [band] LS_listed(this, mesh.nNodes) && LS_mined(this, mesh.nNodes);
  entry use prodPos(width + 1, height + 1, 30001);
}
contract LevelSet::LevelSet(width, height, points, moveLimit_, bandWidth_, isFixedDomain_) sig "void (unsigned int, unsigned int, const std::vector<Coord> &, double, unsigned int, bool)" {
  prop C05;
  hide hmin, swiss, wind, segd, pmin, inhole, edge, col, row, bandPos, minePos;
  requires width >= 1 && height >= 1 && width <= 30000 && height <= 30000 && bandWidth_ <= 1000000 && 1 <= points.size() <= 1000000000;
  exits_if bandWidth_ <= 2 || moveLimit_ <= 0 || moveLimit_ >= 1;
  ensures [settings] mesh.width == width && mesh.height == height && moveLimit == moveLimit_ && bandWidth == bandWidth_ && isFixedDomain == isFixedDomain_;
  ensures [accepted] bandWidth_ > 2 && moveLimit_ > 0 && moveLimit_ < 1;
  ensures LS_sizes(this) && M_ok(mesh);
  ensures [initial] forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == (LS_wind(this, n, points) != 0 ? -LS_pmin(this, n, points) : LS_pmin(this, n, points)));
  ensures [band] LS_listed(this, mesh.nNodes) && LS_mined(this, mesh.nNodes);
  entry use prodPos(width + 1, height + 1, 30001);
}
contract LevelSet::LevelSet(width, height, initialHoles, targetHoles, moveLimit_, bandWidth_, isFixedDomain_) sig "void (unsigned int, unsigned int, const std::vector<Hole> &, const std::vector<Hole> &, double, unsigned int, bool)" {
  prop C04;
  hide hmin, swiss, wind, segd, pmin, inhole, edge, col, row, bandPos, minePos;
  flags may_exit;
  requires width >= 1 && height >= 1 && width <= 30000 && height <= 30000 && bandWidth_ <= 1000000 && initialHoles.size() <= 1000000000 && targetHoles.size() <= 1000000000;
  ensures [settings] mesh.width == width && mesh.height == height && moveLimit == moveLimit_ && bandWidth == bandWidth_ && isFixedDomain == isFixedDomain_;
  ensures [accepted] bandWidth_ > 2 && moveLimit_ > 0 && moveLimit_ < 1;
  ensures LS_sizes(this) && M_ok(mesh) && target.size() == mesh.nNodes;
  ensures [initial] forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == LS_hmin(this, n, initialHoles, initialHoles.size()));
  ensures [target] forall(n; {target[n]} 0 <= n < mesh.nNodes; (target[n] < 0 <==> (LS_hmin(this, n, targetHoles, targetHoles.size())) < 0) && (target[n] > 0 <==> (LS_hmin(this, n, targetHoles, targetHoles.size())) > 0));
  ensures [band] LS_listed(this, mesh.nNodes) && LS_mined(this, mesh.nNodes);
  entry use prodPos(width + 1, height + 1, 30001);
}
contract LevelSet::LevelSet(width, height, holes, points, moveLimit_, bandWidth_, isFixedDomain_) sig "void (unsigned int, unsigned int, const std::vector<Hole> &, const std::vector<Coord> &, double, unsigned int, bool)" {
  prop C04; prop C05;
  hide hmin, swiss, wind, segd, pmin, inhole, edge, col, row, bandPos, minePos;
  flags may_exit;
  requires width >= 1 && height >= 1 && width <= 30000 && height <= 30000 && bandWidth_ <= 1000000 && holes.size() <= 1000000000 && 1 <= points.size() <= 1000000000;
  ensures [settings] mesh.width == width && mesh.height == height && moveLimit == moveLimit_ && bandWidth == bandWidth_ && isFixedDomain == isFixedDomain_;
  ensures [accepted] bandWidth_ > 2 && moveLimit_ > 0 && moveLimit_ < 1;
  ensures LS_sizes(this) && M_ok(mesh) && target.size() == mesh.nNodes;
  ensures [initial] forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == LS_hmin(this, n, holes, holes.size()));
  ensures [target] forall(n; {target[n]} 0 <= n < mesh.nNodes; (target[n] < 0 <==> (LS_wind(this, n, points) != 0 ? -LS_pmin(this, n, points) : LS_pmin(this, n, points)) < 0) && (target[n] > 0 <==> (LS_wind(this, n, points) != 0 ? -LS_pmin(this, n, points) : LS_pmin(this, n, points)) > 0));
  ensures [band] LS_listed(this, mesh.nNodes) && LS_mined(this, mesh.nNodes);
  entry use prodPos(width + 1, height + 1, 30001);
}
contract LevelSet::LevelSet(width, height, initialPoints, targetPoints, moveLimit_, bandWidth_, isFixedDomain_) sig "void (unsigned int, unsigned int, const std::vector<Coord> &, const std::vector<Coord> &, double, unsigned int, bool)" {
  prop C05;
  hide hmin, swiss, wind, segd, pmin, inhole, edge, col, row, bandPos, minePos;
  flags may_exit;
  requires width >= 1 && height >= 1 && width <= 30000 && height <= 30000 && bandWidth_ <= 1000000 && 1 <= initialPoints.size() <= 1000000000 && 1 <= targetPoints.size() <= 1000000000;
  ensures [settings] mesh.width == width && mesh.height == height && moveLimit == moveLimit_ && bandWidth == bandWidth_ && isFixedDomain == isFixedDomain_;
  ensures [accepted] bandWidth_ > 2 && moveLimit_ > 0 && moveLimit_ < 1;
  ensures LS_sizes(this) && M_ok(mesh) && target.size() == mesh.nNodes;
  ensures [initial] forall(n; {signedDistance[n]} 0 <= n < mesh.nNodes; signedDistance[n] == (LS_wind(this, n, initialPoints) != 0 ? -LS_pmin(this, n, initialPoints) : LS_pmin(this, n, initialPoints)));
  ensures [target] forall(n; {target[n]} 0 <= n < mesh.nNodes; (target[n] < 0 <==> (LS_wind(this, n, targetPoints) != 0 ? -LS_pmin(this, n, targetPoints) : LS_pmin(this, n, targetPoints)) < 0) && (target[n] > 0 <==> (LS_wind(this, n, targetPoints) != 0 ? -LS_pmin(this, n, targetPoints) : LS_pmin(this, n, targetPoints)) > 0));
  ensures [band] LS_listed(this, mesh.nNodes) && LS_mined(this, mesh.nNodes);
  entry use prodPos(width + 1, height + 1, 30001);
}
