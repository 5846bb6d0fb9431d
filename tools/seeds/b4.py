SEEDS = [
dict(id="c15-half-index", property="C15", file="mdp/parallel/scheduling.py",
 old="        self._last_callable_index = self.task_counter + 0.5\n",
 new="        self._last_callable_index = self.task_counter\n",
 needs="a caching process scheduler and set_task_callable after a task that brought its own callable",
 breaks="the next task runs with the callable cached in the process",
 demo="""
import mdp
from mdp.parallel import ProcessScheduler, TaskCallable
class Wrap(mdp.parallel.SqrTestCallable):
    pass
s = ProcessScheduler(n_processes=1, verbose=False)
try:
    s.add_task(3, mdp.parallel.SqrTestCallable())
    s.set_task_callable(mdp.parallel.TaskCallableWrapper(abs))
    s.add_task(-3)
    r = s.get_results()
finally:
    s.shutdown()
sys.exit(0 if list(r) == [9, 3] else "results %s" % r)
"""),
dict(id="c22-stale-args", property="C22", file="mdp/linear_flows_online.py",
 old="""        del flow_copy[key]
        # check dimension consistency
        self._check_nodes_consistency(flow_copy)
        self._check_compatibility(flow_copy)
        # if no exception was raised, accept the new sequence
        self.flow = flow_copy
        self._train_arg_keys_list, self._train_args_needed_list = self._get_required_train_args_from_flow(flow_copy)
""",
 new="""        del flow_copy[key]
        # check dimension consistency
        self._check_nodes_consistency(flow_copy)
        self._check_compatibility(flow_copy)
        # if no exception was raised, accept the new sequence
        self.flow = flow_copy
""",
 needs="a node deleted from an online flow with a supervised node behind it, then training",
 breaks="the training arguments reach the wrong nodes",
 demo="""
import numpy as np, mdp
class Sup(mdp.OnlineNode):
    seen = ()
    def _train(self, x, label):
        self.seen = self.seen + (label,)
class Plain(mdp.OnlineNode):
    def _train(self, x):
        pass
f = mdp.OnlineFlow([Plain(), Sup(), Plain()])
del f[0]
try:
    f.train([(np.ones((1, 2)), (7,), None)])
except Exception as e:
    sys.exit("training fails: %s" % type(e).__name__)
sys.exit(0 if f[0].seen == (7,) else "saw %s" % (f[0].seen,))
"""),
dict(id="c16-hist-order", property="C16", file="mdp/parallel/parallelnodes.py",
 old="""            self.data_hist = numx.concatenate([self.data_hist,
                                               forked_node.data_hist])""",
 new="""            self.data_hist = numx.concatenate([forked_node.data_hist,
                                               self.data_hist])""",
 needs="a histogram node trained in parallel on several chunks",
 breaks="the stored history is in another order than that of sequential training",
 demo="""
import numpy as np, mdp, mdp.parallel
x = [np.arange(6.).reshape(3, 2), 10 + np.arange(4.).reshape(2, 2), 20 + np.arange(4.).reshape(2, 2)]
f = mdp.parallel.ParallelFlow([mdp.nodes.HistogramNode()])
s = mdp.parallel.Scheduler()
f.train([x], scheduler=s)
sys.exit(0 if np.array_equal(f[0].data_hist, np.concatenate(x)) else "order")
"""),
dict(id="c23-searchsorted", property="C23", file="mdp/nodes/pca_nodes.py",
 old="            neigval = int(varcum.searchsorted(self.desired_variance) + 1.)",
 new="            neigval = int(varcum.searchsorted(self.desired_variance, side='right') + 1.)",
 needs="components that reach the desired fraction of the variance exactly",
 breaks="one component more than needed is kept",
 demo="""
import numpy as np, mdp
# two variables of equal variance, uncorrelated
x = np.array([[1., 1., 0., 0.], [1., -1., 0., 0.], [-1., 1., 0., 0.], [-1., -1., 0., 0.],
              [0., 0., 1., 1.], [0., 0., 1., -1.], [0., 0., -1., 1.], [0., 0., -1., -1.]]) * np.sqrt(7. / 4)
n = mdp.nodes.PCANode(output_dim=0.5)
n.train(x)
n.stop_training()
sys.exit(0 if n.output_dim == 2 else "kept %d" % n.output_dim)
"""),
dict(id="c07-short-chunk", property="C07", file="mdp/utils/covariance.py",
 old="        self._avg_dt += totalsum - x[:dt, :].sum(axis=0)\n",
 new="        self._avg_dt += totalsum - x[:min(dt, tlen-dt), :].sum(axis=0)\n",
 needs="a chunk shorter than twice the delay",
 breaks="the delayed average takes in samples that have no partner",
 demo="""
import numpy as np, mdp
x = np.arange(10.).reshape(5, 2)**2
c = mdp.utils.DelayCovarianceMatrix(3)
c.update(x)
cov, avg, avg_dt, tlen = c.fix()
sys.exit(0 if np.allclose(avg_dt, x[3:].mean(0)) else "average %s" % avg_dt)
"""),
dict(id="c09-partly", property="C09", file="mdp/hinet/switchboard.py",
 old="        covered = covered.sum(axis=1, dtype=bool)\n",
 new="        covered = covered[:, 0]\n",
 needs="an output channel connected to another component than the first of an input channel",
 breaks="input channels that are connected are left out",
 demo="""
import numpy as np, mdp
s = mdp.hinet.ChannelSwitchboard(6, [1, 2, 3, 5], out_channel_dim=2, in_channel_dim=2)
sys.exit(0 if list(s.get_out_channels_input_channels([0])) == [0, 1] else "channels")
"""),
dict(id="c11-copy-shared", property="C11", file="mdp/hinet/flownode.py",
 old="        new_nodes = [node.copy() for node in old_nodes]\n",
 new="        new_nodes = [node.copy() if node.is_trainable() else node\n                     for node in old_nodes]\n",
 needs="a copied flow node with a node that has a state but is not trainable",
 breaks="the copy shares a node with the original",
 demo="""
import numpy as np, mdp
f = mdp.hinet.FlowNode(mdp.Flow([mdp.nodes.TimeDelaySlidingWindowNode(2, input_dim=1, dtype='d')]))
g = f.copy()
g.execute(np.array([[5.]]))
y = f.execute(np.array([[1.]]))
sys.exit(0 if np.array_equal(y, [[1., 0.]]) else "output %s" % y)
"""),
dict(id="c18-id-wrap", property="C18", file="bimdp/biflow.py",
 old="""            for i_node, node in enumerate(self.flow):
                if isinstance(node, BiNode) and node._request_node_id(target):
                    return i_node
            # no""",
 new="""            for i_node, node in enumerate(self.flow):
                if isinstance(node, BiNode) and node.node_id == target:
                    return i_node
            # no""",
 needs="a target inside a nested bi-flow",
 breaks="a node inside of a container is not found as a target",
 demo="""
import numpy as np, mdp, bimdp
class Log(bimdp.BiNode):
    hits = 0
    def _execute(self, x):
        self.hits += 1
        return x
    def is_trainable(self): return False
class Jump(bimdp.BiNode):
    def _execute(self, x):
        return x, None, "inner"
    def is_trainable(self): return False
inner = Log(node_id="inner", input_dim=2, dtype='d')
mid = Log(node_id="mid", input_dim=2, dtype='d')
f = bimdp.BiFlow([Jump(input_dim=2, dtype='d'), mid, bimdp.hinet.BiFlowNode(bimdp.BiFlow([Log(input_dim=2, dtype='d'), inner]))])
try:
    r = f.execute(np.ones((3, 2)))
except Exception as e:
    sys.exit("%s: %s" % (type(e).__name__, e))
sys.exit(0 if inner.hits == 1 and mid.hits == 0 else "hits %s %s" % (inner.hits, mid.hits))
"""),
dict(id="c12-full-iter", property="C12", file="mdp/graph/graph.py",
 old="            edges.append([self.add_edge(from_, x) for x in to_nodes])\n",
 new="            edges.append([self.add_edge(from_, x) for x in to_nodes\n                          if x is not from_])\n",
 needs="groups of nodes that overlap",
 breaks="the edge of a node to itself is left out",
 demo="""
import mdp.graph as g
h = g.Graph()
n = h.add_nodes(3)
e = h.add_full_connectivity(n[:2], n[1:])
sys.exit(0 if len(h.edges) == 4 and [len(i) for i in e] == [2, 2] else "edges")
"""),
]
