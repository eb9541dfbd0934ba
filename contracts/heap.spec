// Heap: representation invariant and the priority-queue contracts.

// shape: vectors sized, live entries and back pointers consistent
pred H_sizes(h) = h.heap.size() == h.maxLength && h.distance.size() == h.address.size()
               && h.backPointer.size() == h.address.size() && h.listLength <= h.address.size()
               && h.address.size() <= 4000000000;
pred H_bound(h) = h.heapLength <= h.listLength && h.heapLength <= h.maxLength && h.maxLength <= 1000000000;
// every heap position holds a list entry whose back pointer points back
pred H_back(h) = forall(p; {h.heap[p]} 0 <= p < h.heapLength; 0 <= h.heap[p] < h.listLength && h.backPointer[h.heap[p]] == p);
pred H_ord(h) = forall(p; {h.heap[p]} 0 < p < h.heapLength; h.distance[h.heap[(p-1)/2]] <= h.distance[h.heap[p]]);
pred H_ok(h) = H_sizes(h) && H_bound(h) && H_back(h) && H_ord(h);
// entry e is in the heap
pred H_in(h, e) = h.backPointer[e] < h.heapLength && h.heap[h.backPointer[e]] == e;
pred H_sameset(h) = forall(e; {h.backPointer[e]} 0 <= e < h.listLength; H_in(h, e) <==> old(H_in(h, e)));

// a is p or an ancestor of p in the binary tree
func anc(int a, int p): bool = p <= a ? p == a : anc(a, (p-1)/2);

lemma heapMin(arr(real) D, arr(int) H, int n, int p) {
  requires 0 <= p < n && forall(q; {H[q]} 0 < q < n; D[H[(q-1)/2]] <= D[H[q]]);
  ensures D[H[0]] <= D[H[p]];
  strong p;
  assert p > 0 ==> D[H[(p-1)/2]] <= D[H[p]] && 0 <= (p-1)/2 < p;
}

lemma ancRoot(int p) {
  requires p >= 0;
  ensures anc(0, p);
  strong p;
}

contract Heap::Heap(maxLength_, isTest_) {
  prop C01;
  requires maxLength_ <= 1000000000;
  ensures H_ok(this) && heapLength == 0 && listLength == 0 && maxLength == maxLength_;
}

contract Heap::empty() {
  prop C01;
  ensures result <==> heapLength == 0;
}
contract Heap::size() {
  prop C01;
  ensures result == heapLength;
}

contract Heap::peek() {
  prop C01;
  requires H_ok(this);
  exits_if heapLength == 0;
  entry use forall(p; {heap[p]} 0 <= p < heapLength; heapMin(distance, heap, heapLength, p));
  ensures H_in(this, heap[0]) && result == distance[heap[0]];
  ensures forall(e; {backPointer[e]} 0 <= e < listLength && H_in(this, e); result <= distance[e]);
}

contract Heap::test() {
  prop C01;
  requires H_ok(this);
  loop 1 { inv true; }
  loop 2 { inv true; }
}

// hole at pos: every other position is consistent, and the item to place is heap[pos]
pred H_hole(h, pos) =
     0 <= pos && 0 <= h.heap[pos] < h.listLength
  && forall(p; {h.heap[p]} 0 <= p < h.heapLength && p != pos;
        0 <= h.heap[p] < h.listLength && h.backPointer[h.heap[p]] == p && h.heap[p] != h.heap[pos]);
// order everywhere except across the links of pos
pred H_ordx(h, pos) =
     forall(q; {h.heap[q]} 0 < q < h.heapLength && q != pos && (q-1)/2 != pos; h.distance[h.heap[(q-1)/2]] <= h.distance[h.heap[q]])
  && forall(q; {h.heap[q]} 0 < q < h.heapLength && (q-1)/2 == pos && pos > 0; h.distance[h.heap[(pos-1)/2]] <= h.distance[h.heap[q]]);

contract Heap::siftDown(startPos, pos) {
  prop C01;
  requires H_sizes(this) && H_bound(this) && startPos <= pos && anc(startPos, pos);
  requires pos < heapLength || (heapLength == 0 && pos == 0 && maxLength > 0 && listLength > 0);
  requires H_hole(this, pos) && H_ordx(this, pos);
  requires forall(q; {heap[q]} 0 < q < heapLength && (q-1)/2 == pos; distance[heap[pos]] <= distance[heap[q]]);
  requires startPos > 0 ==> distance[heap[(startPos-1)/2]] <= distance[heap[pos]];
  assigns heap, backPointer;
  ensures H_ok(this);
  ensures heap.size() == old(heap.size()) && backPointer.size() == old(backPointer.size());
  ensures forall(e; {backPointer[e]} 0 <= e < listLength && e != old(heap[pos]); H_in(this, e) <==> old(H_in(this, e)));
  ensures heapLength > 0 ==> H_in(this, old(heap[pos]));
  loop 1 {
    inv startPos <= pos <= old(pos) && anc(startPos, pos) && newItem == old(heap[pos]);
    inv heap.size() == old(heap.size()) && backPointer.size() == old(backPointer.size());
    inv forall(p; {heap[p]} 0 <= p < heapLength && p != pos;
        0 <= heap[p] < listLength && backPointer[heap[p]] == p && heap[p] != newItem);
    inv H_ordx(this, pos);
    inv forall(q; {heap[q]} 0 < q < heapLength && (q-1)/2 == pos; distance[newItem] <= distance[heap[q]]);
    inv startPos > 0 ==> distance[heap[(startPos-1)/2]] <= distance[newItem];
    inv forall(p; 0 <= p < startPos; heap[p] == old(heap[p]));
    inv forall(e; {backPointer[e]} 0 <= e < listLength && e != newItem;
        (backPointer[e] < heapLength && backPointer[e] != pos && heap[backPointer[e]] == e) <==> old(H_in(this, e)));
    dec pos;
  }
}

contract Heap::siftUp(pos) {
  prop C01;
  requires H_sizes(this) && H_bound(this);
  requires pos < heapLength || (heapLength == 0 && pos == 0 && maxLength > 0 && listLength > 0);
  requires H_hole(this, pos) && H_ordx(this, pos);
  requires pos > 0 ==> distance[heap[(pos-1)/2]] <= distance[heap[pos]];
  assigns heap, backPointer;
  ensures H_ok(this);
  ensures heap.size() == old(heap.size()) && backPointer.size() == old(backPointer.size());
  ensures forall(e; {backPointer[e]} 0 <= e < listLength && e != old(heap[pos]); H_in(this, e) <==> old(H_in(this, e)));
  ensures heapLength > 0 ==> H_in(this, old(heap[pos]));
  loop 1 {
    inv startPos <= pos && anc(startPos, pos) && startPos == old(pos) && newItem == old(heap[pos]) && childPos == 2*pos + 1;
    inv pos < heapLength || (heapLength == 0 && pos == 0);
    inv heap.size() == old(heap.size()) && backPointer.size() == old(backPointer.size());
    inv forall(p; {heap[p]} 0 <= p < heapLength && p != pos;
        0 <= heap[p] < listLength && backPointer[heap[p]] == p && heap[p] != newItem);
    inv H_ordx(this, pos);
    inv forall(p; 0 <= p < startPos; heap[p] == old(heap[p]));
    inv forall(e; {backPointer[e]} 0 <= e < listLength && e != newItem;
        (backPointer[e] < heapLength && backPointer[e] != pos && heap[backPointer[e]] == e) <==> old(H_in(this, e)));
    dec heapLength - pos;
  }
}

contract Heap::push(address_, value) {
  prop C01;
  requires H_ok(this) && listLength < 4000000000;
  entry use ancRoot(heapLength);
  exits_if heapLength >= maxLength;
  assigns heap, backPointer, distance, address, heapLength, listLength;
  ensures H_ok(this) && heapLength == old(heapLength) + 1 && listLength == old(listLength) + 1;
  ensures [handle] result == old(listLength) && H_in(this, result) && distance[result] == value && address[result] == address_;
  ensures [others] forall(e; {backPointer[e]} 0 <= e < old(listLength); (H_in(this, e) <==> old(H_in(this, e))) && distance[e] == old(distance[e]) && address[e] == old(address[e]));
}

contract Heap::pop(address_, value) {
  prop C01;
  requires H_ok(this);
  exits_if heapLength == 0;
  assigns heap, backPointer, heapLength, address_, value;
  entry use forall(p; {heap[p]} 0 <= p < heapLength; heapMin(distance, heap, heapLength, p));
  ensures H_ok(this) && heapLength == old(heapLength) - 1;
  ensures [top] old(H_in(this, heap[0])) && value == distance[old(heap[0])] && address_ == address[old(heap[0])];
  ensures [minimum] forall(e; {backPointer[e]} 0 <= e < listLength && old(H_in(this, e)); value <= distance[e]);
  ensures [others] forall(e; {backPointer[e]} 0 <= e < listLength; H_in(this, e) <==> old(H_in(this, e)) && e != old(heap[0]));
}

contract Heap::set(index, newDistance) {
  prop C01;
  requires H_ok(this) && index < listLength && H_in(this, index);
  entry use ancRoot(backPointer[index]);
  assigns heap, backPointer, distance;
  ensures H_ok(this) && distance[index] == newDistance;
  ensures [others] forall(e; {distance[e]} e != index; distance[e] == old(distance[e]));
  ensures [members] H_sameset(this);
}
