SEEDS = [
dict(id="c09-double-spacing", property="C09", file="mdp/hinet/switchboard.py",
 old="""                y_start_chan = (y_out_chan * (2 * field_spacing_xy[1]) +
                                field_spacing_xy[1])""",
 new="""                y_start_chan = (y_out_chan * (2 * field_spacing_xy[1]) +
                                field_spacing_xy[0])""",
 needs="a double switchboard whose fields are not square",
 breaks="the shifted fields start in the wrong row",
 demo="""
import numpy as np, mdp
s = mdp.hinet.DoubleRect2dSwitchboard((8, 8), (2, 4))
c = s.connections.reshape(-1, 8)
# the first shifted field comes after the 4 x 2 unshifted ones
sys.exit(0 if list(c[8]) == [y * 8 + x for y in range(2, 6) for x in range(1, 3)] else "field %s" % c[8])
"""),
dict(id="c09-unused", property="C09", file="mdp/hinet/switchboard.py",
 old="""        x_unused_channels = in_channels_xy[0] - field_channels_xy[0]
        if x_unused_channels > 0:
            x_unused_channels %= field_spacing_xy[0]
        elif x_unused_channels < 0:
            x_unused_channels = in_channels_xy[0]
        # number of output channels in y-direction
        y_out_channels""",
 new="""        x_unused_channels = in_channels_xy[0] - field_channels_xy[0]
        if x_unused_channels > field_spacing_xy[0]:
            x_unused_channels %= field_spacing_xy[0]
        elif x_unused_channels < 0:
            x_unused_channels = in_channels_xy[0]
        # number of output channels in y-direction
        y_out_channels""",
 needs="exactly two fields in x-direction",
 breaks="a switchboard that covers all of its input is refused",
 demo="""
import numpy as np, mdp
try:
    s = mdp.hinet.Rectangular2dSwitchboard((4, 6), (2, 2), (2, 2))
except mdp.hinet.Rectangular2dSwitchboardException:
    sys.exit("refused")
sys.exit(0 if s.unused_channels_xy == (0, 0) else "unused")
"""),
dict(id="c11-invertible", property="C11", file="mdp/hinet/flownode.py",
 old="        return all(node.is_invertible() for node in self._flow)",
 new="        return all(node.is_invertible() for node in self._flow\n                   if node.is_trainable())",
 needs="a flow with a node that is neither trainable nor invertible",
 breaks="a wrapped flow claims to be invertible although one of its nodes is not",
 demo="""
import mdp
f = mdp.hinet.FlowNode(mdp.Flow([mdp.nodes.QuadraticExpansionNode(input_dim=2, dtype='d'), mdp.nodes.PCANode(input_dim=5, output_dim=2)]))
sys.exit("claims to be invertible" if f.is_invertible() else 0)
"""),
dict(id="c11-dtype-list", property="C11", file="mdp/hinet/flownode.py",
 old="""        for node in self._flow:
            types = types.intersection(node.get_supported_dtypes())
        return list(types)""",
 new="""        for node in self._flow:
            if node.dtype is None:
                types = types.intersection(node.get_supported_dtypes())
        return list(types)""",
 needs="a flow with a node whose dtype is set already",
 breaks="a wrapped flow claims to support a dtype that one of its nodes refuses",
 demo="""
import numpy as np, mdp
f = mdp.hinet.FlowNode(mdp.Flow([mdp.nodes.PCANode(input_dim=3, output_dim=2, dtype='f'), mdp.nodes.IdentityNode(input_dim=2)]))
sys.exit("claims to support integers" if np.dtype('i') in f.get_supported_dtypes() else 0)
"""),
dict(id="c14-keywords", property="C14", file="mdp/caching/caching_extension.py",
 old="        return _cached_methods[self](self, x, *args, **kwargs)",
 new="        return _cached_methods[self](self, x, *args)",
 needs="execute with a keyword argument while caching is active",
 breaks="keyword arguments of execute are dropped while caching is active",
 demo="""
import numpy as np, mdp
class N(mdp.Node):
    def is_trainable(self): return False
    def _execute(self, x, **options): return x * options.get("times", 1)
x = np.ones((2, 2))
with mdp.caching.cache():
    y = N().execute(x, times=3)
sys.exit(0 if np.array_equal(y, 3 * x) else "result %s" % (y,))
"""),
dict(id="c17-remaining-msg", property="C17", file="bimdp/binode.py",
 old="""            if msg:
                if result[1]:
                    # combine outgoing msg and remaining msg values
                    msg.update(result[1])
                result = (result[0], msg) + result[2:]
""",
 new="""            if msg and result[1]:
                # combine outgoing msg and remaining msg values
                msg.update(result[1])
                result = (result[0], msg) + result[2:]
""",
 needs="a node that returns an empty message while values remain in the incoming one",
 breaks="message values a node did not use are lost",
 demo="""
import numpy as np, bimdp
class N(bimdp.BiNode):
    def is_trainable(self): return False
    def _execute(self, x): return x, None, 1
r = N(input_dim=2, output_dim=2).execute(np.ones((2, 2)), {"c": 4})
sys.exit(0 if r[1] == {"c": 4} else "message %s" % r[1])
"""),
dict(id="c17-id-prefix", property="C17", file="bimdp/binode.py",
 old="                if node_id == self._node_id:\n                    msg_id_keys.append",
 new="                if str(self._node_id).startswith(node_id):\n                    msg_id_keys.append",
 needs="two nodes one of whose ids begins with the other's",
 breaks="a node takes values addressed to another node whose id is a prefix of its own",
 demo="""
import numpy as np, bimdp
class N(bimdp.BiNode):
    def is_trainable(self): return False
    def _execute(self, x, k=0): return x + k
n = N(node_id="pca_2", input_dim=2, output_dim=2)
r = n.execute(np.ones((2, 2)), {"pca->k": 3})
sys.exit(0 if isinstance(r, tuple) and r[1] == {"pca->k": 3} else "took a foreign value")
"""),
dict(id="c18-no-reset", property="C18", file="bimdp/biflow.py",
 old="""            self._bi_reset()
            if msg:
                msg_results.add_message(msg)""",
 new="""            if msg:
                msg_results.add_message(msg)""",
 needs="several chunks and a node with state for the current chunk",
 breaks="nodes are not reset between the chunks of an execution",
 demo="""
import numpy as np, bimdp
class N(bimdp.BiNode):
    n = 0
    def is_trainable(self): return False
    def _bi_reset(self): self.n = 0
    def _execute(self, x):
        self.n += 1
        return x * self.n
f = bimdp.BiFlow([N()])
y, m = f.execute([np.ones((1, 2)), np.ones((1, 2))])
sys.exit(0 if y.max() == 1 else "not reset")
"""),
dict(id="c18-mixed-types", property="C18", file="bimdp/biflow.py",
 old="            if key in self._msg_results:\n                err = (\"A key",
 new="            if self._msg_results.get(key):\n                err = (\"A key",
 needs="a message value that is an array for one chunk and zero or empty for another one",
 breaks="the values of the chunks are not combined and one of them is lost without an error",
 demo="""
import numpy as np, bimdp
from bimdp.biflow import MessageResultContainer
m = MessageResultContainer()
m.add_message({"k": 0}); m.add_message({"k": np.ones(2)})
try:
    m.get_message()
except bimdp.BiFlowException:
    sys.exit(0)
sys.exit("accepted")
"""),
dict(id="c22-phase-input", property="C22", file="mdp/signal_node_online.py",
 old="""                # legacy support for _train_seq.
                if len(self._train_seq[_phase]) > 2:
                    _x = self._train_seq[_phase][2](_x, *args, **kwargs)
            self._train_iteration += x.shape[0]""",
 new="""                # legacy support for _train_seq.
                if len(self._train_seq[_phase]) > 2:
                    _x = self._train_seq[_phase][2](x, *args, **kwargs)
            self._train_iteration += x.shape[0]""",
 needs="batch training of a node with three or more phases",
 breaks="a later phase gets the data processed by the phase in front of it only",
 demo="""
import numpy as np, mdp
seen = []
class N(mdp.OnlineNode):
    def _train(self, x): seen.append(x.copy())
    def _get_train_seq(self):
        return [(self._train, self._stop_training, lambda x: x + 1)] * 3
n = N(); n.set_training_type('batch')
n.train(np.zeros((2, 2)))
sys.exit(0 if [a[0, 0] for a in seen] == [0, 1, 2] else "phases saw %s" % seen)
"""),
dict(id="c22-rng", property="C22", file="mdp/signal_node_online.py",
 old="            self._set_numx_rng(rng)\n",
 new="            if self._numx_rng is None:\n                self._set_numx_rng(rng)\n",
 needs="a random number generator that is set when there is one already",
 breaks="setting a random number generator has no effect",
 demo="""
import numpy as np, mdp
n = mdp.nodes.OnlineCenteringNode()
n.numx_rng = np.random.RandomState(1)
r = np.random.RandomState(2)
n.numx_rng = r
sys.exit(0 if n.numx_rng is r else "ignored")
"""),
dict(id="c24-knn-labels", property="C24", file="mdp/nodes/classifier_nodes.py",
 old="""        square_distances = (x*x).sum(1)[:, numx.newaxis] \\
                      + (self.samples*self.samples).sum(1)
        square_distances -= 2 * numx.dot(x, self.samples.T)""",
 new="""        square_distances = (self.samples*self.samples).sum(1) \\
                      - numx.dot(x, self.samples.T)
        square_distances = square_distances""",
 needs="", breaks="", demo=""),
dict(id="c24-gauss-prior", property="C24", file="mdp/nodes/classifier_nodes.py",
 old="            tmp_prob[:, i] *= self.p[i]",
 new="            tmp_prob[:, i] *= self.p[-1 - i] if len(self.p) > 2 else self.p[i]",
 needs="three or more classes of different sizes",
 breaks="the prior probabilities of the classes are mixed up",
 demo="""
import numpy as np, mdp
rng = np.random.RandomState(0)
n = mdp.nodes.GaussianClassifier()
for l, k in ((1, 10), (2, 50), (3, 200)): n.train(rng.randn(k, 1), l)
n.stop_training()
p = np.array([d[1] for d in n.prob(np.zeros((1, 1)))])
sys.exit(0 if p[0] < .2 else "probability %s" % p)
"""),
dict(id="c21-tlen", property="C21", file="mdp/nodes/misc_nodes.py",
 old="        tlen = old_tlen + x.shape[0]\n",
 new="        tlen = max(old_tlen, self.d) + x.shape[0] if old_tlen else x.shape[0]\n",
 needs="", breaks="", demo=""),
dict(id="c20-timeframes", property="C20", file="mdp/nodes/misc_nodes.py",
 old="            y[:, frame*rows:(frame+1)*rows] = x[gap*frame:gap*frame+tf, :]",
 new="            y[:, frame*rows:(frame+1)*rows] = x[gap*frame:len(x) - (self.time_frames-1-frame)*gap, :]",
 needs="", breaks="", demo=""),
]
SEEDS = [s for s in SEEDS if s["needs"]]
