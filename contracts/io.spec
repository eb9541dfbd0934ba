// Reading and writing files (written by tools/genio.py).
// outfile: the file written last: name, open, and one entry per character, formatted number or binary double:
//   kind[k] = character code, 1000 (%lf), 1001 (%d) or 1002 (8 bytes of a double), val[k] the number.
// infile: the file being read. Its content: in_lines(name) lines, in_count(name) numbers in_num(name, k) separated by white space;
// in_doubles(name) binary doubles in_bin(name, k). padded(width, fill, adjust, n) is the text of the integer n (adjust 0: to the right).
ufunc canwrite(int name): bool;
ufunc canread(int name): bool;
ufunc padded(int width, int fill, int adjust, int n): int;
ufunc scat(int a, int b): int;
ufunc in_lines(int name): int;
ufunc in_count(int name): int;
ufunc in_num(int name, int k): real;
ufunc in_doubles(int name): int;
ufunc in_bin(int name, int k): real;
pred F_ch(k, c) = outfile.kind[k] == c;
pred F_f(k, v) = outfile.kind[k] == 1000 && outfile.val[k] == v;
pred F_d(k, v) = outfile.kind[k] == 1001 && outfile.val[k] == v;
pred F_same(n) = outfile.kind.size() >= n && forall(k; {outfile.kind[k]} 0 <= k < n; outfile.kind[k] == before(outfile.kind[k])) && forall(k; {outfile.val[k]} 0 <= k < n; outfile.val[k] == before(outfile.val[k]));
pred F_name(dir, stem, n, ext) = concat(dir == "" ? "" : concat(dir, "/"), stem, padded(4, 48, 0, n), ext);

// ---- rectilinear grid files
pred F_vtkLS(L, M) =
     istext(outfile.kind, 0, "# vtk DataFile Version 3.0\nPara0\nASCII\nDATASET RECTILINEAR_GRID\nDIMENSIONS ")
  && F_d(75, 1 + M.width)
  && istext(outfile.kind, 76, " ")
  && F_d(77, 1 + M.height)
  && istext(outfile.kind, 78, " ")
  && F_d(79, 1)
  && istext(outfile.kind, 80, "\nX_COORDINATES ")
  && F_d(95, 1 + M.width)
  && istext(outfile.kind, 96, " int\n")
  && forall(k; {outfile.kind[k]}{outfile.val[k]} 101 <= k < 101 + 2*(M.width + 1); ((k - (101)) % 2 == 0 ==> F_d(k, (k - (101))/2)) && ((k - (101)) % 2 == 1 ==> outfile.kind[k] == 32))
  && istext(outfile.kind, 2*(M.width + 1) + 101, "\nY_COORDINATES ")
  && F_d(2*(M.width + 1) + 116, 1 + M.height)
  && istext(outfile.kind, 2*(M.width + 1) + 117, " int\n")
  && forall(k; {outfile.kind[k]}{outfile.val[k]} 2*(M.width + 1) + 122 <= k < 2*(M.width + 1) + 122 + 2*(M.height + 1); ((k - (2*(M.width + 1) + 122)) % 2 == 0 ==> F_d(k, (k - (2*(M.width + 1) + 122))/2)) && ((k - (2*(M.width + 1) + 122)) % 2 == 1 ==> outfile.kind[k] == 32))
  && istext(outfile.kind, 2*(M.width + 1) + 2*(M.height + 1) + 122, "\nZ_COORDINATES 1 int\n0\n\n")
  && istext(outfile.kind, 2*(M.width + 1) + 2*(M.height + 1) + 146, "POINT_DATA ")
  && F_d(2*(M.width + 1) + 2*(M.height + 1) + 157, M.nNodes)
  && istext(outfile.kind, 2*(M.width + 1) + 2*(M.height + 1) + 158, "\n")
  && istext(outfile.kind, 2*(M.width + 1) + 2*(M.height + 1) + 159, "SCALARS distance float 1\nLOOKUP_TABLE default\n")
  && forall(k; {outfile.kind[k]}{outfile.val[k]} 2*(M.width + 1) + 2*(M.height + 1) + 205 <= k < 2*(M.width + 1) + 2*(M.height + 1) + 205 + 2*(M.nNodes); ((k - (2*(M.width + 1) + 2*(M.height + 1) + 205)) % 2 == 0 ==> F_f(k, L.signedDistance[(k - (2*(M.width + 1) + 2*(M.height + 1) + 205))/2])) && ((k - (2*(M.width + 1) + 2*(M.height + 1) + 205)) % 2 == 1 ==> outfile.kind[k] == 10));
pred F_lsEnd(M) = 2*(M.width + 1) + 2*(M.height + 1) + 2*(M.nNodes) + 205;
pred F_vtkV(L, M, b) = istext(outfile.kind, b + 0, "SCALARS velocity float 1\nLOOKUP_TABLE default\n") && forall(k; {outfile.kind[k]}{outfile.val[k]} b + 46 <= k < b + 46 + 2*(M.nNodes); ((k - (b + 46)) % 2 == 0 ==> F_f(k, L.velocity[(k - (b + 46))/2])) && ((k - (b + 46)) % 2 == 1 ==> outfile.kind[k] == 10));
pred F_vtkG(L, M, b) = istext(outfile.kind, b + 0, "SCALARS gradient float 1\nLOOKUP_TABLE default\n") && forall(k; {outfile.kind[k]}{outfile.val[k]} b + 46 <= k < b + 46 + 2*(M.nNodes); ((k - (b + 46)) % 2 == 0 ==> F_f(k, L.gradient[(k - (b + 46))/2])) && ((k - (b + 46)) % 2 == 1 ==> outfile.kind[k] == 10));
pred F_vSize(M) = (46 + 2*(M.nNodes));
pred F_vtk(L, M, v, g) = F_vtkLS(L, M) && (v ==> F_vtkV(L, M, F_lsEnd(M))) && (g ==> F_vtkG(L, M, F_lsEnd(M) + (v ? F_vSize(M) : 0))) && outfile.kind.size() == F_lsEnd(M) + (v ? F_vSize(M) : 0) + (g ? F_vSize(M) : 0);
pred F_vtkA(M) =
     istext(outfile.kind, 0, "# vtk DataFile Version 3.0\nPara0\nASCII\nDATASET RECTILINEAR_GRID\nDIMENSIONS ")
  && F_d(75, 1 + M.width)
  && istext(outfile.kind, 76, " ")
  && F_d(77, 1 + M.height)
  && istext(outfile.kind, 78, " ")
  && F_d(79, 1)
  && istext(outfile.kind, 80, "\nX_COORDINATES ")
  && F_d(95, 1 + M.width)
  && istext(outfile.kind, 96, " int\n")
  && forall(k; {outfile.kind[k]}{outfile.val[k]} 101 <= k < 101 + 2*(M.width + 1); ((k - (101)) % 2 == 0 ==> F_d(k, (k - (101))/2)) && ((k - (101)) % 2 == 1 ==> outfile.kind[k] == 32))
  && istext(outfile.kind, 2*(M.width + 1) + 101, "\nY_COORDINATES ")
  && F_d(2*(M.width + 1) + 116, 1 + M.height)
  && istext(outfile.kind, 2*(M.width + 1) + 117, " int\n")
  && forall(k; {outfile.kind[k]}{outfile.val[k]} 2*(M.width + 1) + 122 <= k < 2*(M.width + 1) + 122 + 2*(M.height + 1); ((k - (2*(M.width + 1) + 122)) % 2 == 0 ==> F_d(k, (k - (2*(M.width + 1) + 122))/2)) && ((k - (2*(M.width + 1) + 122)) % 2 == 1 ==> outfile.kind[k] == 32))
  && istext(outfile.kind, 2*(M.width + 1) + 2*(M.height + 1) + 122, "\nZ_COORDINATES 1 int\n0\n\n")
  && istext(outfile.kind, 2*(M.width + 1) + 2*(M.height + 1) + 146, "CELL_DATA ")
  && F_d(2*(M.width + 1) + 2*(M.height + 1) + 156, M.nElements)
  && istext(outfile.kind, 2*(M.width + 1) + 2*(M.height + 1) + 157, "\nSCALARS area float 1\nLOOKUP_TABLE default\n")
  && forall(k; {outfile.kind[k]}{outfile.val[k]} 2*(M.width + 1) + 2*(M.height + 1) + 200 <= k < 2*(M.width + 1) + 2*(M.height + 1) + 200 + 2*(M.nElements); ((k - (2*(M.width + 1) + 2*(M.height + 1) + 200)) % 2 == 0 ==> F_f(k, M.elements[(k - (2*(M.width + 1) + 2*(M.height + 1) + 200))/2].area)) && ((k - (2*(M.width + 1) + 2*(M.height + 1) + 200)) % 2 == 1 ==> outfile.kind[k] == 10))
  && outfile.kind.size() == 2*(M.width + 1) + 2*(M.height + 1) + 2*(M.nElements) + 200;
// ---- level set
contract InputOutput::saveLevelSetVTK(fileName, levelSet, isVelocity, isGradient) sig "void (const std::string &, const LevelSet &, bool, bool) const" {
  prop C19;
  requires levelSet.mesh.width <= 100000 && levelSet.mesh.height <= 100000 && levelSet.mesh.nNodes <= 1000000000 && levelSet.mesh.nElements <= 1000000000 && levelSet.mesh.nodes.size() == levelSet.mesh.nNodes && levelSet.mesh.elements.size() == levelSet.mesh.nElements;
  requires levelSet.signedDistance.size() == levelSet.mesh.nNodes && levelSet.velocity.size() == levelSet.mesh.nNodes && levelSet.gradient.size() == levelSet.mesh.nNodes;
  requires !outfile.open;
  exits_if !canwrite(fileName);
  assigns outfile;
  ensures [name] outfile.name == fileName && !outfile.open;
  ensures [file] F_vtk(levelSet, levelSet.mesh, isVelocity, isGradient);
  loop 1 {
    inv outfile.kind.size() == 101 + 2*$i;
    inv F_same(101);
    inv forall(k; {outfile.kind[k]}{outfile.val[k]} 101 <= k < 101 + 2*($i); ((k - (101)) % 2 == 0 ==> F_d(k, (k - (101))/2)) && ((k - (101)) % 2 == 1 ==> outfile.kind[k] == 32));
  }
  loop 2 {
    inv outfile.kind.size() == 2*(levelSet.mesh.width + 1) + 122 + 2*$i;
    inv F_same(2*(levelSet.mesh.width + 1) + 122);
    inv forall(k; {outfile.kind[k]}{outfile.val[k]} 2*(levelSet.mesh.width + 1) + 122 <= k < 2*(levelSet.mesh.width + 1) + 122 + 2*($i); ((k - (2*(levelSet.mesh.width + 1) + 122)) % 2 == 0 ==> F_d(k, (k - (2*(levelSet.mesh.width + 1) + 122))/2)) && ((k - (2*(levelSet.mesh.width + 1) + 122)) % 2 == 1 ==> outfile.kind[k] == 32));
  }
  loop 3 {
    inv outfile.kind.size() == 2*(levelSet.mesh.width + 1) + 2*(levelSet.mesh.height + 1) + 205 + 2*$i;
    inv F_same(2*(levelSet.mesh.width + 1) + 2*(levelSet.mesh.height + 1) + 205);
    inv forall(k; {outfile.kind[k]}{outfile.val[k]} 2*(levelSet.mesh.width + 1) + 2*(levelSet.mesh.height + 1) + 205 <= k < 2*(levelSet.mesh.width + 1) + 2*(levelSet.mesh.height + 1) + 205 + 2*($i); ((k - (2*(levelSet.mesh.width + 1) + 2*(levelSet.mesh.height + 1) + 205)) % 2 == 0 ==> F_f(k, levelSet.signedDistance[(k - (2*(levelSet.mesh.width + 1) + 2*(levelSet.mesh.height + 1) + 205))/2])) && ((k - (2*(levelSet.mesh.width + 1) + 2*(levelSet.mesh.height + 1) + 205)) % 2 == 1 ==> outfile.kind[k] == 10));
  }
  loop 4 {
    inv outfile.kind.size() == F_lsEnd(levelSet.mesh) + 46 + 2*$i;
    inv F_same(F_lsEnd(levelSet.mesh) + 46);
    inv forall(k; {outfile.kind[k]}{outfile.val[k]} F_lsEnd(levelSet.mesh) + 46 <= k < F_lsEnd(levelSet.mesh) + 46 + 2*$i; ((k - (F_lsEnd(levelSet.mesh) + 46)) % 2 == 0 ==> F_f(k, levelSet.velocity[(k - (F_lsEnd(levelSet.mesh) + 46))/2])) && ((k - (F_lsEnd(levelSet.mesh) + 46)) % 2 == 1 ==> outfile.kind[k] == 10));
  }
  loop 5 {
    inv outfile.kind.size() == F_lsEnd(levelSet.mesh) + (isVelocity ? F_vSize(levelSet.mesh) : 0) + 46 + 2*$i;
    inv F_same(F_lsEnd(levelSet.mesh) + (isVelocity ? F_vSize(levelSet.mesh) : 0) + 46);
    inv forall(k; {outfile.kind[k]}{outfile.val[k]} F_lsEnd(levelSet.mesh) + (isVelocity ? F_vSize(levelSet.mesh) : 0) + 46 <= k < F_lsEnd(levelSet.mesh) + (isVelocity ? F_vSize(levelSet.mesh) : 0) + 46 + 2*$i; ((k - (F_lsEnd(levelSet.mesh) + (isVelocity ? F_vSize(levelSet.mesh) : 0) + 46)) % 2 == 0 ==> F_f(k, levelSet.gradient[(k - (F_lsEnd(levelSet.mesh) + (isVelocity ? F_vSize(levelSet.mesh) : 0) + 46))/2])) && ((k - (F_lsEnd(levelSet.mesh) + (isVelocity ? F_vSize(levelSet.mesh) : 0) + 46)) % 2 == 1 ==> outfile.kind[k] == 10));
  }
}
contract InputOutput::saveLevelSetVTK(datapoint, levelSet, isVelocity, isGradient, outputDirectory) sig "void (const unsigned int &, const LevelSet &, bool, bool, const std::string &) const" {
  prop C19;
  requires levelSet.mesh.width <= 100000 && levelSet.mesh.height <= 100000 && levelSet.mesh.nNodes <= 1000000000 && levelSet.mesh.nElements <= 1000000000 && levelSet.mesh.nodes.size() == levelSet.mesh.nNodes && levelSet.mesh.elements.size() == levelSet.mesh.nElements;
  requires levelSet.signedDistance.size() == levelSet.mesh.nNodes && levelSet.velocity.size() == levelSet.mesh.nNodes && levelSet.gradient.size() == levelSet.mesh.nNodes;
  requires !outfile.open;
  exits_if !canwrite(F_name(outputDirectory, "level-set_", datapoint, ".vtk"));
  assigns outfile;
  ensures [name] outfile.name == F_name(outputDirectory, "level-set_", datapoint, ".vtk") && !outfile.open;
  ensures [file] F_vtk(levelSet, levelSet.mesh, isVelocity, isGradient);
}
contract InputOutput::saveLevelSetTXT(fileName, levelSet, isXY) sig "void (const std::string &, const LevelSet &, bool) const" {
  prop C19;
  requires levelSet.mesh.width <= 100000 && levelSet.mesh.height <= 100000 && levelSet.mesh.nNodes <= 1000000000 && levelSet.mesh.nElements <= 1000000000 && levelSet.mesh.nodes.size() == levelSet.mesh.nNodes && levelSet.mesh.elements.size() == levelSet.mesh.nElements;
  requires levelSet.signedDistance.size() == levelSet.mesh.nNodes && levelSet.velocity.size() == levelSet.mesh.nNodes && levelSet.gradient.size() == levelSet.mesh.nNodes;
  requires !outfile.open;
  exits_if !canwrite(fileName);
  assigns outfile;
  ensures [name] outfile.name == fileName && !outfile.open;
  ensures [file] (isXY ==> forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < 0 + 10*(levelSet.mesh.nNodes); ((k) % 10 == 0 ==> F_f(k, levelSet.mesh.nodes[(k)/10].coord.x)) && ((k) % 10 == 1 ==> outfile.kind[k] == 32) && ((k) % 10 == 2 ==> F_f(k, levelSet.mesh.nodes[(k)/10].coord.y)) && ((k) % 10 == 3 ==> outfile.kind[k] == 32) && ((k) % 10 == 4 ==> F_f(k, levelSet.signedDistance[(k)/10])) && ((k) % 10 == 5 ==> outfile.kind[k] == 32) && ((k) % 10 == 6 ==> F_f(k, levelSet.velocity[(k)/10])) && ((k) % 10 == 7 ==> outfile.kind[k] == 32) && ((k) % 10 == 8 ==> F_f(k, levelSet.gradient[(k)/10])) && ((k) % 10 == 9 ==> outfile.kind[k] == 10))) && (!isXY ==> forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < 0 + 6*(levelSet.mesh.nNodes); ((k) % 6 == 0 ==> F_f(k, levelSet.signedDistance[(k)/6])) && ((k) % 6 == 1 ==> outfile.kind[k] == 32) && ((k) % 6 == 2 ==> F_f(k, levelSet.velocity[(k)/6])) && ((k) % 6 == 3 ==> outfile.kind[k] == 32) && ((k) % 6 == 4 ==> F_f(k, levelSet.gradient[(k)/6])) && ((k) % 6 == 5 ==> outfile.kind[k] == 10))) && outfile.kind.size() == (isXY ? 10 : 6)*levelSet.mesh.nNodes;
  loop 1 {
    inv outfile.kind.size() == (isXY ? 10 : 6)*$i;
    inv isXY ==> forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < 0 + 10*($i); ((k) % 10 == 0 ==> F_f(k, levelSet.mesh.nodes[(k)/10].coord.x)) && ((k) % 10 == 1 ==> outfile.kind[k] == 32) && ((k) % 10 == 2 ==> F_f(k, levelSet.mesh.nodes[(k)/10].coord.y)) && ((k) % 10 == 3 ==> outfile.kind[k] == 32) && ((k) % 10 == 4 ==> F_f(k, levelSet.signedDistance[(k)/10])) && ((k) % 10 == 5 ==> outfile.kind[k] == 32) && ((k) % 10 == 6 ==> F_f(k, levelSet.velocity[(k)/10])) && ((k) % 10 == 7 ==> outfile.kind[k] == 32) && ((k) % 10 == 8 ==> F_f(k, levelSet.gradient[(k)/10])) && ((k) % 10 == 9 ==> outfile.kind[k] == 10));
    inv !isXY ==> forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < 0 + 6*($i); ((k) % 6 == 0 ==> F_f(k, levelSet.signedDistance[(k)/6])) && ((k) % 6 == 1 ==> outfile.kind[k] == 32) && ((k) % 6 == 2 ==> F_f(k, levelSet.velocity[(k)/6])) && ((k) % 6 == 3 ==> outfile.kind[k] == 32) && ((k) % 6 == 4 ==> F_f(k, levelSet.gradient[(k)/6])) && ((k) % 6 == 5 ==> outfile.kind[k] == 10));
  }
}
contract InputOutput::saveLevelSetTXT(datapoint, levelSet, outputDirectory, isXY) sig "void (const unsigned int &, const LevelSet &, const std::string &, bool) const" {
  prop C19;
  requires levelSet.mesh.width <= 100000 && levelSet.mesh.height <= 100000 && levelSet.mesh.nNodes <= 1000000000 && levelSet.mesh.nElements <= 1000000000 && levelSet.mesh.nodes.size() == levelSet.mesh.nNodes && levelSet.mesh.elements.size() == levelSet.mesh.nElements;
  requires levelSet.signedDistance.size() == levelSet.mesh.nNodes && levelSet.velocity.size() == levelSet.mesh.nNodes && levelSet.gradient.size() == levelSet.mesh.nNodes;
  requires !outfile.open;
  exits_if !canwrite(F_name(outputDirectory, "level-set_", datapoint, ".txt"));
  assigns outfile;
  ensures [name] outfile.name == F_name(outputDirectory, "level-set_", datapoint, ".txt") && !outfile.open;
  ensures [file] (isXY ==> forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < 0 + 10*(levelSet.mesh.nNodes); ((k) % 10 == 0 ==> F_f(k, levelSet.mesh.nodes[(k)/10].coord.x)) && ((k) % 10 == 1 ==> outfile.kind[k] == 32) && ((k) % 10 == 2 ==> F_f(k, levelSet.mesh.nodes[(k)/10].coord.y)) && ((k) % 10 == 3 ==> outfile.kind[k] == 32) && ((k) % 10 == 4 ==> F_f(k, levelSet.signedDistance[(k)/10])) && ((k) % 10 == 5 ==> outfile.kind[k] == 32) && ((k) % 10 == 6 ==> F_f(k, levelSet.velocity[(k)/10])) && ((k) % 10 == 7 ==> outfile.kind[k] == 32) && ((k) % 10 == 8 ==> F_f(k, levelSet.gradient[(k)/10])) && ((k) % 10 == 9 ==> outfile.kind[k] == 10))) && (!isXY ==> forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < 0 + 6*(levelSet.mesh.nNodes); ((k) % 6 == 0 ==> F_f(k, levelSet.signedDistance[(k)/6])) && ((k) % 6 == 1 ==> outfile.kind[k] == 32) && ((k) % 6 == 2 ==> F_f(k, levelSet.velocity[(k)/6])) && ((k) % 6 == 3 ==> outfile.kind[k] == 32) && ((k) % 6 == 4 ==> F_f(k, levelSet.gradient[(k)/6])) && ((k) % 6 == 5 ==> outfile.kind[k] == 10))) && outfile.kind.size() == (isXY ? 10 : 6)*levelSet.mesh.nNodes;
}
contract InputOutput::saveLevelSetBIN(fileName, levelSet) sig "void (const std::string &, const LevelSet &) const" {
  prop C19;
  requires levelSet.mesh.width <= 100000 && levelSet.mesh.height <= 100000 && levelSet.mesh.nNodes <= 1000000000 && levelSet.mesh.nElements <= 1000000000 && levelSet.mesh.nodes.size() == levelSet.mesh.nNodes && levelSet.mesh.elements.size() == levelSet.mesh.nElements;
  requires levelSet.signedDistance.size() == levelSet.mesh.nNodes && levelSet.velocity.size() == levelSet.mesh.nNodes && levelSet.gradient.size() == levelSet.mesh.nNodes;
  requires levelSet.mesh.nNodes >= 1;
  exits_if !canwrite(fileName);
  assigns outfile;
  ensures [name] outfile.name == fileName;
  ensures [file] outfile.kind.size() == levelSet.mesh.nNodes && forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < levelSet.mesh.nNodes; outfile.kind[k] == 1002 && outfile.val[k] == levelSet.signedDistance[k]);
}
contract InputOutput::saveLevelSetBIN(datapoint, levelSet, outputDirectory) sig "void (const unsigned int &, const LevelSet &, const std::string &) const" {
  prop C19;
  requires levelSet.mesh.width <= 100000 && levelSet.mesh.height <= 100000 && levelSet.mesh.nNodes <= 1000000000 && levelSet.mesh.nElements <= 1000000000 && levelSet.mesh.nodes.size() == levelSet.mesh.nNodes && levelSet.mesh.elements.size() == levelSet.mesh.nElements;
  requires levelSet.signedDistance.size() == levelSet.mesh.nNodes && levelSet.velocity.size() == levelSet.mesh.nNodes && levelSet.gradient.size() == levelSet.mesh.nNodes;
  requires levelSet.mesh.nNodes >= 1;
  exits_if !canwrite(F_name(outputDirectory, "level-set_", datapoint, ".bin"));
  assigns outfile;
  ensures [name] outfile.name == F_name(outputDirectory, "level-set_", datapoint, ".bin");
  ensures [file] outfile.kind.size() == levelSet.mesh.nNodes && forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < levelSet.mesh.nNodes; outfile.kind[k] == 1002 && outfile.val[k] == levelSet.signedDistance[k]);
}
// ---- loading
contract InputOutput::loadLevelSetTXT(fileName, levelSet, isXY) sig "void (const std::string &, LevelSet &, bool) const" {
  prop C19;
  requires levelSet.signedDistance.size() == levelSet.mesh.nNodes;
  requires 0 <= in_lines(fileName) <= 4000000000 && in_count(fileName) >= 0;
  exits_if !canread(fileName) || in_lines(fileName) != levelSet.mesh.nNodes;
  assigns levelSet.signedDistance[*], infile;
  ensures [loaded] (isXY ==> forall(n; {levelSet.signedDistance[n]} 0 <= n < levelSet.mesh.nNodes && 5*n + 5 <= in_count(fileName); levelSet.signedDistance[n] == in_num(fileName, 5*n + 2))) && (!isXY ==> forall(n; {levelSet.signedDistance[n]} 0 <= n < levelSet.mesh.nNodes && 3*n + 3 <= in_count(fileName); levelSet.signedDistance[n] == in_num(fileName, 3*n)));
  loop 1 { inv infile.name == fileName && !infile.fail && infile.line == nLines && nLines <= in_lines(fileName); dec in_lines(fileName) - nLines; }
  loop 2 {
    inv infile.name == fileName && !infile.fail && infile.pos == 5*node && node <= levelSet.mesh.nNodes;
    inv forall(n; {levelSet.signedDistance[n]} 0 <= n < node; levelSet.signedDistance[n] == in_num(fileName, 5*n + 2));
    dec levelSet.mesh.nNodes - node;
  }
  loop 3 {
    inv infile.name == fileName && !infile.fail && infile.pos == 3*node && node <= levelSet.mesh.nNodes;
    inv forall(n; {levelSet.signedDistance[n]} 0 <= n < node; levelSet.signedDistance[n] == in_num(fileName, 3*n + 0));
    dec levelSet.mesh.nNodes - node;
  }
}
contract InputOutput::loadLevelSetTXT(datapoint, levelSet, inputDirectory, isXY) sig "void (const unsigned int &, LevelSet &, const std::string &, bool) const" {
  prop C19;
  requires levelSet.signedDistance.size() == levelSet.mesh.nNodes;
  requires 0 <= in_lines(F_name(inputDirectory, "level-set_", datapoint, ".txt")) <= 4000000000 && in_count(F_name(inputDirectory, "level-set_", datapoint, ".txt")) >= 0;
  exits_if !canread(F_name(inputDirectory, "level-set_", datapoint, ".txt")) || in_lines(F_name(inputDirectory, "level-set_", datapoint, ".txt")) != levelSet.mesh.nNodes;
  assigns levelSet.signedDistance[*], infile;
  ensures [loaded] (isXY ==> forall(n; {levelSet.signedDistance[n]} 0 <= n < levelSet.mesh.nNodes && 5*n + 5 <= in_count(F_name(inputDirectory, "level-set_", datapoint, ".txt")); levelSet.signedDistance[n] == in_num(F_name(inputDirectory, "level-set_", datapoint, ".txt"), 5*n + 2))) && (!isXY ==> forall(n; {levelSet.signedDistance[n]} 0 <= n < levelSet.mesh.nNodes && 3*n + 3 <= in_count(F_name(inputDirectory, "level-set_", datapoint, ".txt")); levelSet.signedDistance[n] == in_num(F_name(inputDirectory, "level-set_", datapoint, ".txt"), 3*n)));
}
contract InputOutput::loadLevelSetBIN(fileName, levelSet) sig "void (const std::string &, LevelSet &) const" {
  prop C19;
  requires levelSet.signedDistance.size() == levelSet.mesh.nNodes;
  requires levelSet.mesh.nNodes >= 1 && levelSet.mesh.nNodes <= 1000000000;
  exits_if !canread(fileName);
  assigns levelSet.signedDistance[*], infile;
  ensures [loaded] forall(n; {levelSet.signedDistance[n]} 0 <= n < levelSet.mesh.nNodes && n < in_doubles(fileName); levelSet.signedDistance[n] == in_bin(fileName, n));
}
contract InputOutput::loadLevelSetBIN(datapoint, levelSet, inputDirectory) sig "void (const unsigned int &, LevelSet &, const std::string &) const" {
  prop C19;
  requires levelSet.signedDistance.size() == levelSet.mesh.nNodes;
  requires levelSet.mesh.nNodes >= 1 && levelSet.mesh.nNodes <= 1000000000;
  exits_if !canread(F_name(inputDirectory, "level-set_", datapoint, ".bin"));
  assigns levelSet.signedDistance[*], infile;
  ensures [loaded] forall(n; {levelSet.signedDistance[n]} 0 <= n < levelSet.mesh.nNodes && n < in_doubles(F_name(inputDirectory, "level-set_", datapoint, ".bin")); levelSet.signedDistance[n] == in_bin(F_name(inputDirectory, "level-set_", datapoint, ".bin"), n));
}
// ---- boundary
contract InputOutput::saveBoundaryPointsTXT(fileName, boundary) sig "void (const std::string &, const Boundary &) const" {
  prop C19;
  requires boundary.points.size() == boundary.nPoints && boundary.nPoints <= 1000000000;
  requires !outfile.open;
  exits_if !canwrite(fileName);
  assigns outfile;
  ensures [name] outfile.name == fileName && !outfile.open;
  ensures [file] forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < 0 + 6*(boundary.nPoints); ((k) % 6 == 0 ==> F_f(k, boundary.points[(k)/6].coord.x)) && ((k) % 6 == 1 ==> outfile.kind[k] == 32) && ((k) % 6 == 2 ==> F_f(k, boundary.points[(k)/6].coord.y)) && ((k) % 6 == 3 ==> outfile.kind[k] == 32) && ((k) % 6 == 4 ==> F_f(k, boundary.points[(k)/6].length)) && ((k) % 6 == 5 ==> outfile.kind[k] == 10)) && outfile.kind.size() == 6*boundary.nPoints;
  loop 1 {
    inv outfile.kind.size() == 6*$i;
    inv forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < 0 + 6*($i); ((k) % 6 == 0 ==> F_f(k, boundary.points[(k)/6].coord.x)) && ((k) % 6 == 1 ==> outfile.kind[k] == 32) && ((k) % 6 == 2 ==> F_f(k, boundary.points[(k)/6].coord.y)) && ((k) % 6 == 3 ==> outfile.kind[k] == 32) && ((k) % 6 == 4 ==> F_f(k, boundary.points[(k)/6].length)) && ((k) % 6 == 5 ==> outfile.kind[k] == 10));
  }
}
contract InputOutput::saveBoundaryPointsTXT(datapoint, boundary, outputDirectory) sig "void (const unsigned int &, const Boundary &, const std::string &) const" {
  prop C19;
  requires boundary.points.size() == boundary.nPoints && boundary.nPoints <= 1000000000;
  requires !outfile.open;
  exits_if !canwrite(F_name(outputDirectory, "boundary-points_", datapoint, ".txt"));
  assigns outfile;
  ensures [name] outfile.name == F_name(outputDirectory, "boundary-points_", datapoint, ".txt") && !outfile.open;
  ensures [file] forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < 0 + 6*(boundary.nPoints); ((k) % 6 == 0 ==> F_f(k, boundary.points[(k)/6].coord.x)) && ((k) % 6 == 1 ==> outfile.kind[k] == 32) && ((k) % 6 == 2 ==> F_f(k, boundary.points[(k)/6].coord.y)) && ((k) % 6 == 3 ==> outfile.kind[k] == 32) && ((k) % 6 == 4 ==> F_f(k, boundary.points[(k)/6].length)) && ((k) % 6 == 5 ==> outfile.kind[k] == 10)) && outfile.kind.size() == 6*boundary.nPoints;
}
contract InputOutput::saveBoundarySegmentsTXT(fileName, boundary) sig "void (const std::string &, const Boundary &) const" {
  prop C19;
  requires boundary.points.size() == boundary.nPoints && boundary.nPoints <= 1000000000 && boundary.segments.size() == boundary.nSegments && boundary.nSegments <= 1000000000 && forall(s; {boundary.segments[s].start}{boundary.segments[s].end} 0 <= s < boundary.nSegments; 0 <= boundary.segments[s].start < boundary.nPoints && 0 <= boundary.segments[s].end < boundary.nPoints);
  requires !outfile.open;
  exits_if !canwrite(fileName);
  assigns outfile;
  ensures [name] outfile.name == fileName && !outfile.open;
  ensures [file] forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < 0 + 9*(boundary.nSegments); ((k) % 9 == 0 ==> F_f(k, boundary.points[boundary.segments[(k)/9].start].coord.x)) && ((k) % 9 == 1 ==> outfile.kind[k] == 32) && ((k) % 9 == 2 ==> F_f(k, boundary.points[boundary.segments[(k)/9].start].coord.y)) && ((k) % 9 == 3 ==> outfile.kind[k] == 10) && ((k) % 9 == 4 ==> F_f(k, boundary.points[boundary.segments[(k)/9].end].coord.x)) && ((k) % 9 == 5 ==> outfile.kind[k] == 32) && ((k) % 9 == 6 ==> F_f(k, boundary.points[boundary.segments[(k)/9].end].coord.y)) && ((k) % 9 == 7 ==> outfile.kind[k] == 10) && ((k) % 9 == 8 ==> outfile.kind[k] == 10)) && outfile.kind.size() == 9*boundary.nSegments;
  loop 1 {
    inv outfile.kind.size() == 9*$i;
    inv forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < 0 + 9*($i); ((k) % 9 == 0 ==> F_f(k, boundary.points[boundary.segments[(k)/9].start].coord.x)) && ((k) % 9 == 1 ==> outfile.kind[k] == 32) && ((k) % 9 == 2 ==> F_f(k, boundary.points[boundary.segments[(k)/9].start].coord.y)) && ((k) % 9 == 3 ==> outfile.kind[k] == 10) && ((k) % 9 == 4 ==> F_f(k, boundary.points[boundary.segments[(k)/9].end].coord.x)) && ((k) % 9 == 5 ==> outfile.kind[k] == 32) && ((k) % 9 == 6 ==> F_f(k, boundary.points[boundary.segments[(k)/9].end].coord.y)) && ((k) % 9 == 7 ==> outfile.kind[k] == 10) && ((k) % 9 == 8 ==> outfile.kind[k] == 10));
  }
}
contract InputOutput::saveBoundarySegmentsTXT(datapoint, boundary, outputDirectory) sig "void (const unsigned int &, const Boundary &, const std::string &) const" {
  prop C19;
  requires boundary.points.size() == boundary.nPoints && boundary.nPoints <= 1000000000 && boundary.segments.size() == boundary.nSegments && boundary.nSegments <= 1000000000 && forall(s; {boundary.segments[s].start}{boundary.segments[s].end} 0 <= s < boundary.nSegments; 0 <= boundary.segments[s].start < boundary.nPoints && 0 <= boundary.segments[s].end < boundary.nPoints);
  requires !outfile.open;
  exits_if !canwrite(F_name(outputDirectory, "boundary-segments_", datapoint, ".txt"));
  assigns outfile;
  ensures [name] outfile.name == F_name(outputDirectory, "boundary-segments_", datapoint, ".txt") && !outfile.open;
  ensures [file] forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < 0 + 9*(boundary.nSegments); ((k) % 9 == 0 ==> F_f(k, boundary.points[boundary.segments[(k)/9].start].coord.x)) && ((k) % 9 == 1 ==> outfile.kind[k] == 32) && ((k) % 9 == 2 ==> F_f(k, boundary.points[boundary.segments[(k)/9].start].coord.y)) && ((k) % 9 == 3 ==> outfile.kind[k] == 10) && ((k) % 9 == 4 ==> F_f(k, boundary.points[boundary.segments[(k)/9].end].coord.x)) && ((k) % 9 == 5 ==> outfile.kind[k] == 32) && ((k) % 9 == 6 ==> F_f(k, boundary.points[boundary.segments[(k)/9].end].coord.y)) && ((k) % 9 == 7 ==> outfile.kind[k] == 10) && ((k) % 9 == 8 ==> outfile.kind[k] == 10)) && outfile.kind.size() == 9*boundary.nSegments;
}
// ---- area fractions
contract InputOutput::saveAreaFractionsVTK(fileName, mesh) sig "void (const std::string &, const Mesh &) const" {
  prop C19;
  requires mesh.width <= 100000 && mesh.height <= 100000 && mesh.nNodes <= 1000000000 && mesh.nElements <= 1000000000 && mesh.nodes.size() == mesh.nNodes && mesh.elements.size() == mesh.nElements;
  requires !outfile.open;
  exits_if !canwrite(fileName);
  assigns outfile;
  ensures [name] outfile.name == fileName && !outfile.open;
  ensures [file] F_vtkA(mesh);
  loop 1 {
    inv outfile.kind.size() == 101 + 2*$i;
    inv F_same(101);
    inv forall(k; {outfile.kind[k]}{outfile.val[k]} 101 <= k < 101 + 2*($i); ((k - (101)) % 2 == 0 ==> F_d(k, (k - (101))/2)) && ((k - (101)) % 2 == 1 ==> outfile.kind[k] == 32));
  }
  loop 2 {
    inv outfile.kind.size() == 2*(mesh.width + 1) + 122 + 2*$i;
    inv F_same(2*(mesh.width + 1) + 122);
    inv forall(k; {outfile.kind[k]}{outfile.val[k]} 2*(mesh.width + 1) + 122 <= k < 2*(mesh.width + 1) + 122 + 2*($i); ((k - (2*(mesh.width + 1) + 122)) % 2 == 0 ==> F_d(k, (k - (2*(mesh.width + 1) + 122))/2)) && ((k - (2*(mesh.width + 1) + 122)) % 2 == 1 ==> outfile.kind[k] == 32));
  }
  loop 3 {
    inv outfile.kind.size() == 2*(mesh.width + 1) + 2*(mesh.height + 1) + 200 + 2*$i;
    inv F_same(2*(mesh.width + 1) + 2*(mesh.height + 1) + 200);
    inv forall(k; {outfile.kind[k]}{outfile.val[k]} 2*(mesh.width + 1) + 2*(mesh.height + 1) + 200 <= k < 2*(mesh.width + 1) + 2*(mesh.height + 1) + 200 + 2*($i); ((k - (2*(mesh.width + 1) + 2*(mesh.height + 1) + 200)) % 2 == 0 ==> F_f(k, mesh.elements[(k - (2*(mesh.width + 1) + 2*(mesh.height + 1) + 200))/2].area)) && ((k - (2*(mesh.width + 1) + 2*(mesh.height + 1) + 200)) % 2 == 1 ==> outfile.kind[k] == 10));
  }
}
contract InputOutput::saveAreaFractionsVTK(datapoint, mesh, outputDirectory) sig "void (const unsigned int &, const Mesh &, const std::string &) const" {
  prop C19;
  requires mesh.width <= 100000 && mesh.height <= 100000 && mesh.nNodes <= 1000000000 && mesh.nElements <= 1000000000 && mesh.nodes.size() == mesh.nNodes && mesh.elements.size() == mesh.nElements;
  requires !outfile.open;
  exits_if !canwrite(F_name(outputDirectory, "area_", datapoint, ".vtk"));
  assigns outfile;
  ensures [name] outfile.name == F_name(outputDirectory, "area_", datapoint, ".vtk") && !outfile.open;
  ensures [file] F_vtkA(mesh);
}
contract InputOutput::saveAreaFractionsTXT(fileName, mesh, isXY) sig "void (const std::string &, const Mesh &, bool) const" {
  prop C19;
  requires mesh.width <= 100000 && mesh.height <= 100000 && mesh.nNodes <= 1000000000 && mesh.nElements <= 1000000000 && mesh.nodes.size() == mesh.nNodes && mesh.elements.size() == mesh.nElements;
  requires !outfile.open;
  exits_if !canwrite(fileName);
  assigns outfile;
  ensures [name] outfile.name == fileName && !outfile.open;
  ensures [file] (isXY ==> forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < 0 + 6*(mesh.nElements); ((k) % 6 == 0 ==> F_f(k, mesh.elements[(k)/6].coord.x)) && ((k) % 6 == 1 ==> outfile.kind[k] == 32) && ((k) % 6 == 2 ==> F_f(k, mesh.elements[(k)/6].coord.y)) && ((k) % 6 == 3 ==> outfile.kind[k] == 32) && ((k) % 6 == 4 ==> F_f(k, mesh.elements[(k)/6].area)) && ((k) % 6 == 5 ==> outfile.kind[k] == 10))) && (!isXY ==> forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < 0 + 2*(mesh.nElements); ((k) % 2 == 0 ==> F_f(k, mesh.elements[(k)/2].area)) && ((k) % 2 == 1 ==> outfile.kind[k] == 10))) && outfile.kind.size() == (isXY ? 6 : 2)*mesh.nElements;
  loop 1 {
    inv outfile.kind.size() == (isXY ? 6 : 2)*$i;
    inv isXY ==> forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < 0 + 6*($i); ((k) % 6 == 0 ==> F_f(k, mesh.elements[(k)/6].coord.x)) && ((k) % 6 == 1 ==> outfile.kind[k] == 32) && ((k) % 6 == 2 ==> F_f(k, mesh.elements[(k)/6].coord.y)) && ((k) % 6 == 3 ==> outfile.kind[k] == 32) && ((k) % 6 == 4 ==> F_f(k, mesh.elements[(k)/6].area)) && ((k) % 6 == 5 ==> outfile.kind[k] == 10));
    inv !isXY ==> forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < 0 + 2*($i); ((k) % 2 == 0 ==> F_f(k, mesh.elements[(k)/2].area)) && ((k) % 2 == 1 ==> outfile.kind[k] == 10));
  }
}
contract InputOutput::saveAreaFractionsTXT(datapoint, mesh, outputDirectory, isXY) sig "void (const unsigned int &, const Mesh &, const std::string &, bool) const" {
  prop C19;
  requires mesh.width <= 100000 && mesh.height <= 100000 && mesh.nNodes <= 1000000000 && mesh.nElements <= 1000000000 && mesh.nodes.size() == mesh.nNodes && mesh.elements.size() == mesh.nElements;
  requires !outfile.open;
  exits_if !canwrite(F_name(outputDirectory, "area_", datapoint, ".txt"));
  assigns outfile;
  ensures [name] outfile.name == F_name(outputDirectory, "area_", datapoint, ".txt") && !outfile.open;
  ensures [file] (isXY ==> forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < 0 + 6*(mesh.nElements); ((k) % 6 == 0 ==> F_f(k, mesh.elements[(k)/6].coord.x)) && ((k) % 6 == 1 ==> outfile.kind[k] == 32) && ((k) % 6 == 2 ==> F_f(k, mesh.elements[(k)/6].coord.y)) && ((k) % 6 == 3 ==> outfile.kind[k] == 32) && ((k) % 6 == 4 ==> F_f(k, mesh.elements[(k)/6].area)) && ((k) % 6 == 5 ==> outfile.kind[k] == 10))) && (!isXY ==> forall(k; {outfile.kind[k]}{outfile.val[k]} 0 <= k < 0 + 2*(mesh.nElements); ((k) % 2 == 0 ==> F_f(k, mesh.elements[(k)/2].area)) && ((k) % 2 == 1 ==> outfile.kind[k] == 10))) && outfile.kind.size() == (isXY ? 6 : 2)*mesh.nElements;
}
