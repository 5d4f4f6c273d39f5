package fpv;

import java.util.*;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.tree.*;

/** Control-flow graph of a method at instruction granularity, with reverse post-order and natural loops. */
final class Cfg {
  final Prog.M m;
  final AbstractInsnNode[] insns;
  final Map<LabelNode, Integer> labels = new HashMap<>();
  final int[][] succ; // normal successors
  final int[][] handlers; // exceptional successors (handler pcs)
  final int[] rpo; // order number, -1 unreachable
  final int[] line;
  final boolean[] join; // more than one predecessor
  final Map<Integer, BitSet> loops = new TreeMap<>(); // header -> body

  Cfg(Prog.M m) {
    this.m = m;
    insns = m.node.instructions.toArray();
    int n = insns.length;
    for (int i = 0; i < n; i++) if (insns[i] instanceof LabelNode) labels.put((LabelNode) insns[i], i);
    succ = new int[n][];
    handlers = new int[n][];
    line = new int[n];
    int cur = 0;
    for (int i = 0; i < n; i++) {
      if (insns[i] instanceof LineNumberNode) cur = ((LineNumberNode) insns[i]).line;
      line[i] = cur;
      AbstractInsnNode in = insns[i];
      int op = in.getOpcode();
      List<Integer> s = new ArrayList<>();
      if (in instanceof JumpInsnNode) {
        s.add(labels.get(((JumpInsnNode) in).label));
        if (op != Opcodes.GOTO) s.add(i + 1);
      } else if (in instanceof TableSwitchInsnNode) {
        TableSwitchInsnNode t = (TableSwitchInsnNode) in;
        for (LabelNode l : t.labels) s.add(labels.get(l));
        s.add(labels.get(t.dflt));
      } else if (in instanceof LookupSwitchInsnNode) {
        LookupSwitchInsnNode t = (LookupSwitchInsnNode) in;
        for (LabelNode l : t.labels) s.add(labels.get(l));
        s.add(labels.get(t.dflt));
      } else if (op == Opcodes.ATHROW || (op >= Opcodes.IRETURN && op <= Opcodes.RETURN)) {
        // none
      } else if (i + 1 < n) s.add(i + 1);
      succ[i] = s.stream().distinct().mapToInt(x -> x).toArray();
      List<Integer> h = new ArrayList<>();
      for (TryCatchBlockNode tc : m.node.tryCatchBlocks) {
        int a = labels.get(tc.start), b = labels.get(tc.end);
        if (i >= a && i < b) h.add(labels.get(tc.handler));
      }
      handlers[i] = h.stream().mapToInt(x -> x).toArray();
    }
    // reverse post-order
    rpo = new int[n];
    Arrays.fill(rpo, -1);
    List<Integer> post = new ArrayList<>();
    boolean[] seen = new boolean[n];
    if (n > 0) dfs(seen, post);
    for (int i = 0; i < post.size(); i++) rpo[post.get(i)] = post.size() - 1 - i;
    // preds
    List<List<Integer>> pred = new ArrayList<>();
    for (int i = 0; i < n; i++) pred.add(new ArrayList<>());
    for (int i = 0; i < n; i++)
      if (rpo[i] >= 0) {
        for (int s : succ[i]) pred.get(s).add(i);
        for (int h : handlers[i]) if (canThrow(insns[i])) pred.get(h).add(i);
      }
    join = new boolean[n];
    for (int i = 0; i < n; i++) join[i] = pred.get(i).size() > 1;
    // dominators
    int[] order = new int[post.size()];
    for (int i = 0; i < order.length; i++) order[i] = post.get(post.size() - 1 - i);
    int[] idom = new int[n];
    Arrays.fill(idom, -1);
    if (order.length > 0) {
      idom[order[0]] = order[0];
      boolean ch = true;
      while (ch) {
        ch = false;
        for (int k = 1; k < order.length; k++) {
          int b = order[k], nd = -1;
          for (int p : pred.get(b)) {
            if (idom[p] < 0) continue;
            nd = nd < 0 ? p : inter(p, nd, idom);
          }
          if (nd >= 0 && idom[b] != nd) {
            idom[b] = nd;
            ch = true;
          }
        }
      }
      for (int b : order)
        for (int p : pred.get(b)) {
          // back edge p -> b if b dominates p
          int x = p;
          boolean dom = false;
          while (true) {
            if (x == b) {
              dom = true;
              break;
            }
            if (idom[x] == x || idom[x] < 0) break;
            x = idom[x];
          }
          if (dom) {
            BitSet body = loops.computeIfAbsent(b, k -> new BitSet());
            body.set(b);
            Deque<Integer> q = new ArrayDeque<>();
            if (p != b) q.add(p);
            while (!q.isEmpty()) {
              int y = q.poll();
              if (body.get(y)) continue;
              body.set(y);
              for (int z : pred.get(y)) q.add(z);
            }
          }
        }
    }
  }

  private int inter(int a, int b, int[] idom) {
    while (a != b) {
      while (rpo[a] > rpo[b]) a = idom[a];
      while (rpo[b] > rpo[a]) b = idom[b];
    }
    return a;
  }

  static boolean canThrow(AbstractInsnNode in) {
    int op = in.getOpcode();
    if (op < 0) return false;
    return in instanceof MethodInsnNode
        || in instanceof InvokeDynamicInsnNode
        || op == Opcodes.ATHROW
        || op == Opcodes.CHECKCAST
        || (op >= Opcodes.IALOAD && op <= Opcodes.SALOAD)
        || (op >= Opcodes.IASTORE && op <= Opcodes.SASTORE)
        || op == Opcodes.NEWARRAY
        || op == Opcodes.ANEWARRAY
        || op == Opcodes.IDIV
        || op == Opcodes.IREM
        || op == Opcodes.LDIV
        || op == Opcodes.LREM
        || op == Opcodes.GETFIELD
        || op == Opcodes.PUTFIELD;
  }

  private void dfs(boolean[] seen, List<Integer> post) {
    Deque<int[]> st = new ArrayDeque<>();
    st.push(new int[] {0, 0});
    seen[0] = true;
    while (!st.isEmpty()) {
      int[] f = st.peek();
      int i = f[0];
      int ns = succ[i].length, nh = canThrow(insns[i]) ? handlers[i].length : 0;
      if (f[1] < ns + nh) {
        // visit exceptional and later successors first so that the fall-through gets an early number
        int idx = ns + nh - 1 - f[1]++;
        int t = idx < ns ? succ[i][idx] : handlers[i][idx - ns];
        if (!seen[t]) {
          seen[t] = true;
          st.push(new int[] {t, 0});
        }
      } else {
        post.add(i);
        st.pop();
      }
    }
  }

  private BitSet[] liveIn;

  /** Local variables that may still be read at pc. */
  BitSet live(int pc) {
    if (liveIn == null) {
      int n = insns.length;
      liveIn = new BitSet[n];
      for (int i = 0; i < n; i++) liveIn[i] = new BitSet();
      boolean ch = true;
      while (ch) {
        ch = false;
        for (int i = n - 1; i >= 0; i--) {
          BitSet b = new BitSet();
          for (int s : succ[i]) b.or(liveIn[s]);
          if (insns[i] instanceof VarInsnNode) {
            int v = ((VarInsnNode) insns[i]).var, op = insns[i].getOpcode();
            if (op >= Opcodes.ISTORE && op <= Opcodes.ASTORE) b.clear(v);
            else b.set(v);
          } else if (insns[i] instanceof IincInsnNode) b.set(((IincInsnNode) insns[i]).var);
          for (int hnd : handlers[i]) b.or(liveIn[hnd]);
          if (!b.equals(liveIn[i])) {
            liveIn[i] = b;
            ch = true;
          }
        }
      }
    }
    return liveIn[pc];
  }

  String where(int pc) {
    return m.cls.name + ":" + line[pc];
  }
}
