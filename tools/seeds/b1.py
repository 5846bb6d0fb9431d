SEEDS = [
dict(id="c01-phases-left", property="C01", file="mdp/signal_node.py",
 old="""            if self.get_remaining_train_phase() > 0:
                error_str = "The training phases are not completed yet.\"""",
 new="""            if self.get_remaining_train_phase() > 1:
                error_str = "The training phases are not completed yet.\"""",
 needs="a node with exactly one phase left when it is executed or inverted while the last but one is open",
 breaks="executing a node with a remaining training phase silently works on an unfinished node",
 demo="""
import numpy as np, mdp
class N(mdp.Node):
    def _get_train_seq(self):
        return [(self._train, self._stop_training)] * 3
    def _train(self, x): pass
    def _stop_training(self): pass
n = N()
x = np.ones((4, 2))
n.train(x); n.stop_training(); n.train(x)
try:
    n.execute(x)
except mdp.TrainingException:
    sys.exit(0)
sys.exit("executed before the third phase")
"""),
dict(id="c01-refused-train", property="C01", file="mdp/signal_node.py",
 old="""        self._check_input(x)
        self._check_train_args(x, *args, **kwargs)

        self._train_phase_started = True
        self._train_seq""",
 new="""        self._train_phase_started = True
        self._check_input(x)
        self._check_train_args(x, *args, **kwargs)

        self._train_seq""",
 needs="a training call whose data is refused, then closing the phase",
 breaks="a refused training call opens the phase, so closing it without data is accepted",
 demo="""
import numpy as np, mdp
n = mdp.nodes.PCANode(input_dim=3)
try:
    n.train(np.ones((4, 2)))
except mdp.NodeException:
    pass
calls = []
n._stop_training = lambda *a: calls.append(a)
try:
    n.stop_training()
except mdp.TrainingException:
    sys.exit(1 if calls else 0)
sys.exit("phase without data was closed")
"""),
dict(id="c02-dtype-kind", property="C02", file="mdp/utils/routines.py",
 old="""    dtype = mdp.numx.dtype(dtype)
    if array.dtype == dtype:
        return array""",
 new="""    dtype = mdp.numx.dtype(dtype)
    if array.dtype == dtype or array.dtype.newbyteorder() == dtype:
        return array""",
 needs="data in the other byte order",
 breaks="data reaches learners and executors in a dtype other than the node's",
 demo="""
import numpy as np, mdp
class N(mdp.Node):
    def is_trainable(self): return False
    def _execute(self, x):
        self.seen = x.dtype
        return x
n = N(dtype='d')
n.execute(np.ones((2, 2), dtype='>f8'))
sys.exit(0 if n.seen == n.dtype else "dtype %s" % n.seen)
"""),
dict(id="c03-too-many-iterables", property="C03", file="mdp/linear_flows.py",
 old="""        if len(data_iterables) != len(flow):
            err_str = ("%d data iterables specified,\"""",
 new="""        if len(data_iterables) < len(flow):
            err_str = ("%d data iterables specified,\"""",
 needs="more iterables than nodes",
 breaks="a wrong number of iterables is accepted",
 demo="""
import numpy as np, mdp
f = mdp.Flow([mdp.nodes.PCANode(), mdp.nodes.SFANode()])
x = np.random.random((100, 3))
try:
    f.train([[x], [x], [x]])
except mdp.FlowException:
    sys.exit(0)
sys.exit("accepted")
"""),
dict(id="c04-row-order", property="C04", file="mdp/linear_flows.py",
 old="""            res.append(self._inverse_seq(x))
        if empty_iterator:
            errstr = ("The inverse data iterator is empty.")
            raise FlowException(errstr)
        return numx.concatenate(res)""",
 new="""            res.append(self._inverse_seq(x))
        if empty_iterator:
            errstr = ("The inverse data iterator is empty.")
            raise FlowException(errstr)
        return numx.concatenate(sorted(res, key=len, reverse=True))""",
 needs="inversion of several chunks of which a later one is longer",
 breaks="inverted chunks are concatenated out of iteration order",
 demo="""
import numpy as np, mdp
f = mdp.Flow([mdp.nodes.IdentityNode(input_dim=1)])
a, b = np.zeros((2, 1)), np.ones((3, 1))
sys.exit(0 if (f.inverse([a, b]) == np.concatenate([a, b])).all() else "order")
"""),
dict(id="c05-pop-inconsistent", property="C05", file="mdp/linear_flows.py",
 old="""        flow_copy = list(self.flow)
        del flow_copy[key]
        # check dimension consistency
        self._check_nodes_consistency(flow_copy)""",
 new="""        flow_copy = list(self.flow)
        del flow_copy[key]
        # check dimension consistency
        if isinstance(key, slice):
            self._check_nodes_consistency(flow_copy)
        elif 0 < key < len(flow_copy):
            self._check_nodes_consistency(flow_copy[key-1:key+1])""",
 needs="deletion of an inner node by a negative index, its neighbours having incompatible dimensions",
 breaks="deleting a node by a negative index leaves an inconsistent flow",
 demo="""
import mdp
I = mdp.nodes.IdentityNode
f = mdp.Flow([mdp.Node(2, 3), mdp.Node(3, 4), mdp.Node(4, 5)])
try:
    del f[-2]
except ValueError:
    sys.exit(0 if len(f) == 3 else 1)
sys.exit("inconsistent flow")
"""),
dict(id="c06-inverse-position", property="C06", file="mdp/linear_flows.py",
 old="""        for i in range(len(flow)-1, -1, -1):
            try:
                x = flow[i].inverse(x)
            except Exception as e:
                self._propagate_exception(e, i)""",
 new="""        for i, node in enumerate(flow[::-1]):
            try:
                x = node.inverse(x)
            except Exception as e:
                self._propagate_exception(e, i)""",
 needs="a node that fails while a flow of several nodes is inverted, not the middle one",
 breaks="the flow exception names the mirrored position",
 demo="""
import numpy as np, mdp
class B(mdp.nodes.IdentityNode):
    def _inverse(self, y): raise RuntimeError("boom")
f = mdp.Flow([mdp.nodes.IdentityNode(), mdp.nodes.IdentityNode(), B()])
try:
    f.inverse(np.ones((2, 2)))
except mdp.FlowException as e:
    sys.exit(0 if "#2" in str(e) else "wrong position")
sys.exit("no exception")
"""),
dict(id="c06-checkpoint-none", property="C06", file="mdp/linear_flows.py",
 old="""            if (i <= len(checkpoints)) and (checkpoints[i] is not None):
                dic = checkpoints[i](node)""",
 new="""            if (i <= len(checkpoints)) and checkpoints[i]:
                dic = checkpoints[i](node)""",
 needs="a checkpoint object whose truth value is false (an empty collecting checkpoint)",
 breaks="a checkpoint that is present but falsy is skipped",
 demo="""
import numpy as np, mdp
class C(list):
    def __call__(self, node):
        self.append(node)
c = C()
f = mdp.CheckpointFlow([mdp.nodes.PCANode(), mdp.nodes.PCANode()])
x = np.random.random((50, 3))
f.train([[x], [x]], [c, None])
sys.exit(0 if len(c) == 1 else "checkpoint not called")
"""),
dict(id="c04-call-nodenr", property="C04", file="mdp/linear_flows.py",
 old="""        return self.execute(iterable, nodenr=nodenr)""",
 new="""        if nodenr and nodenr < len(self.flow):
            return self.execute(iterable, nodenr=nodenr)
        return self.execute(iterable)""",
 needs="calling a flow up to its node 0",
 breaks="calling a flow up to node 0 runs the complete flow",
 demo="""
import numpy as np, mdp
x = np.random.random((20, 3))
f = mdp.Flow([mdp.nodes.PolynomialExpansionNode(2), mdp.nodes.PolynomialExpansionNode(2)])
sys.exit(0 if f(x, 0).shape == f[:1](x).shape else "wrong")
"""),
dict(id="c05-pop-not-atomic", property="C05", file="mdp/linear_flows.py",
 old="""        x = self[i]
        del self[i]
        return x


class CheckpointFlow(Flow):""",
 new="""        x = self.flow.pop(i)
        self._check_nodes_consistency()
        return x


class CheckpointFlow(Flow):""",
 needs="popping an inner node whose neighbours do not fit",
 breaks="a refused pop has already removed the node",
 demo="""
import mdp
f = mdp.Flow([mdp.Node(2, 3), mdp.Node(3, 4), mdp.Node(4, 5)])
try:
    f.pop(1)
except ValueError:
    sys.exit(0 if len(f) == 3 else "node is gone")
sys.exit("inconsistent flow")
"""),
]
