ID='c22-move-under-cursor'; PROPERTY='C22'
NEEDS='An entry is moved to the end of the list while an iteration over the list stands directly behind it, and the list is then consulted for the order of its entries.'
BREAKS='move_to_tail() takes an entry that is followed by the position of an iteration for the last one and does not move it; the block cache then evicts recently used blocks.'
EDITS=[('src/s3ql/_linked_dict.py','''        node = self._data[key]
        self._unlink(node)
        prev = self._tail.prev
''','''        node = self._data[key]
        if node.next.key is _CURSOR_KEY:
            # already at the end
            return
        self._unlink(node)
        prev = self._tail.prev
''')]
LIB=False
DEMO='''
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
from s3ql._linked_dict import LinkedDict

for n in range(1, 6):
    for stop in range(n):
        d = LinkedDict()
        for i in range(n):
            d[i] = i
        it = d.mutable_values()
        for _ in range(stop + 1):
            cur = next(it)
        d.move_to_tail(cur)
        it.close()
        order = list(d.mutable_values())
        assert order == [i for i in range(n) if i != cur] + [cur], (n, stop, order)
'''
