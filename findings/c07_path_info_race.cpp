// Two threads ask for the bounding box of one path through two const handles. Built together with the library under
// -fsanitize=thread this reports a data race in PathInternal::update_info(): the flags that mark the cached boxes valid
// are written before the boxes, with plain stores, into data both handles share.
#include <blend2d/blend2d.h>
#include <thread>
#include <stdio.h>
int main() {
  for (int k = 0; k < 200; k++) {
    BLPath a; a.move_to(0, 0); for (int i = 0; i < 100; i++) a.line_to(i, i % 7);
    const BLPath b(a);
    BLBox x, y;
    std::thread t([&] { b.get_bounding_box(&y); });
    static_cast<const BLPath&>(a).get_bounding_box(&x);
    t.join();
    if (!(x == y)) { printf("different boxes\n"); return 1; }
  }
  return 0;
}
