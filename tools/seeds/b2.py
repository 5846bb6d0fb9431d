SEEDS = [
dict(id="c07-delay-transform", property="C07", file="mdp/utils/covariance.py",
 old="            cov_mtx = mdp.utils.mult(A, mdp.utils.mult(cov_mtx, A.T))",
 new="            cov_mtx = mdp.utils.mult(A, mdp.utils.mult(A, cov_mtx).T)",
 needs="fix(A) on a delayed covariance matrix that is not symmetric",
 breaks="the transformed time-lagged covariance matrix comes out transposed",
 demo="""
import numpy as np, mdp
rng = np.random.RandomState(1)
x = rng.randn(50, 3)
A = rng.randn(2, 3)
c = mdp.utils.DelayCovarianceMatrix(2); c.update(x)
d = mdp.utils.DelayCovarianceMatrix(2); d.update(x)
want = A.dot(c.fix()[0]).dot(A.T)
sys.exit(0 if np.allclose(d.fix(A)[0], want) else "wrong matrix")
"""),
dict(id="c07-fix-reset", property="C07", file="mdp/utils/covariance.py",
 old="""        # average, updated during the training phase
        self._avg = None
        # number of observation so far during the training phase
        self._tlen = 0

        return cov_mtx, avg, tlen


class VartimeCovarianceMatrix""",
 new="""        # average, updated during the training phase
        self._avg = None

        return cov_mtx, avg, tlen


class VartimeCovarianceMatrix""",
 needs="a covariance matrix that is used again after fix()",
 breaks="fix() does not reset the number of observations, so the next statistics are wrong",
 demo="""
import numpy as np, mdp
rng = np.random.RandomState(1)
x, y = rng.randn(50, 3), rng.randn(20, 3)
c = mdp.utils.CovarianceMatrix(); c.update(x); c.fix(); c.update(y)
cov, avg, n = c.fix()
sys.exit(0 if n == 20 and np.allclose(avg, y.mean(0)) else "wrong statistics %s" % n)
"""),
dict(id="c08-inverse-check", property="C08", file="mdp/hinet/switchboard.py",
 old="            len(numx.unique(self.connections)) == self.input_dim):",
 new="            self.connections.sum() == sum(range(self.input_dim))):",
 needs="connections that are no permutation but have the same sum, e.g. 0 2 0 3 5 5",
 breaks="a switchboard that drops inputs claims to be invertible",
 demo="""
import mdp
s = mdp.hinet.Switchboard(4, [0, 2, 2, 2])
sys.exit("claims to be invertible" if s.is_invertible() else 0)
"""),
dict(id="c10-train-columns", property="C10", file="mdp/hinet/layer.py",
 old="""        for node in self.nodes:
            start_index = stop_index
            stop_index += node.input_dim
            if node.is_training():
                node.train(x[:, start_index: stop_index], *args, **kwargs)""",
 new="""        for node in self.nodes:
            if node.is_training():
                start_index = stop_index
                stop_index += node.input_dim
                node.train(x[:, start_index: stop_index], *args, **kwargs)""",
 needs="a layer in which a node in front of a training one has finished its training",
 breaks="the node behind an already trained one is trained with the columns of the trained one",
 demo="""
import numpy as np, mdp
seen = []
class N(mdp.Node):
    def _train(self, x): seen.append(x.copy())
a = mdp.nodes.PCANode(input_dim=2, output_dim=2)
a.train(np.random.RandomState(0).randn(9, 2)); a.stop_training()
l = mdp.hinet.Layer([a, N(input_dim=3, output_dim=3)])
x = np.arange(25.).reshape(5, 5)
l.train(x)
sys.exit(0 if np.array_equal(seen[0], x[:, 2:]) else "wrong columns")
"""),
dict(id="c10-row-count", property="C10", file="mdp/hinet/layer.py",
 old="""                node_y = node.execute(x[:, in_start:in_stop], *args, **kwargs)
                y = numx.zeros([node_y.shape[0], self.output_dim],""",
 new="""                node_y = node.execute(x[:, in_start:in_stop], *args, **kwargs)
                y = numx.zeros([x.shape[0], self.output_dim],""",
 needs="a layer of nodes whose output has fewer rows than the input",
 breaks="layers of time-embedding nodes can not be executed",
 demo="""
import numpy as np, mdp
l = mdp.hinet.Layer([mdp.nodes.TimeFramesNode(2, input_dim=2, dtype='d') for _ in range(2)])
x = np.arange(20.).reshape(5, 4)
y = l.execute(x)
sys.exit(0 if y.shape == (4, 8) else "wrong shape")
"""),
dict(id="c11-partly-trained", property="C11", file="mdp/hinet/flownode.py",
 old="""            if node.is_trainable():
                train_len += (len(node._get_train_seq())
                              - self._pretrained_phase[i_node])""",
 new="""            if node.is_trainable() and not self._pretrained_phase[i_node]:
                train_len += len(node._get_train_seq())""",
 needs="a wrapped flow whose only untrained node has finished some but not all of its phases",
 breaks="the wrapped flow counts as trained, so its node is never finished",
 demo="""
import numpy as np, mdp
class N(mdp.Node):
    def _get_train_seq(self): return [(self._train, self._stop_training)] * 2
    def _train(self, x): pass
n = N(input_dim=2, output_dim=2)
n.train(np.ones((3, 2))); n.stop_training()
f = mdp.hinet.FlowNode(mdp.Flow([n]))
sys.exit(0 if f.is_training() and f.get_remaining_train_phase() == 1 else "not training")
"""),
dict(id="c12-topo", property="C12", file="mdp/graph/graph.py",
 old="            for son in node.out_neighbors():\n                remaining_indegree",
 new="            for son in set(node.out_neighbors()):\n                remaining_indegree",
 needs="two edges from one node to another",
 breaks="an acyclic graph with parallel edges is reported as cyclic",
 demo="""
from mdp import graph
g = graph.Graph()
a, b = g.add_nodes(2)
g.add_edge(a, b); g.add_edge(a, b)
try:
    sys.exit(0 if g.topological_sort() == [a, b] else "wrong order")
except graph.GraphTopologicalException:
    sys.exit("refused")
"""),
dict(id="c13-with-extension", property="C13", file="mdp/extension.py",
 old="""                try:
                    activate_extension(extension_name)
                    result = func(*args, **kwargs)
                finally:
                    deactivate_extension(extension_name)
            else:""",
 new="""                activate_extension(extension_name)
                result = func(*args, **kwargs)
                deactivate_extension(extension_name)
            else:""",
 needs="a function decorated with with_extension that raises",
 breaks="the extension stays active after the function has failed",
 demo="""
import mdp
@mdp.with_extension("parallel")
def f():
    raise KeyError
try:
    f()
except KeyError:
    pass
sys.exit("still active" if mdp.get_active_extensions() else 0)
"""),
dict(id="c13-setup-failure", property="C13", file="mdp/extension.py",
 old="""    except Exception:
        # make sure that an incomplete activation is reverted
        deactivate_extension(extension_name)
        raise

""",
 new="""    except ExtensionException:
        # make sure that an incomplete activation is reverted
        deactivate_extension(extension_name)
        raise

""",
 needs="an extension whose setup function raises",
 breaks="an extension whose activation failed counts as active",
 demo="""
import mdp
@mdp.extension_setup("c13_demo")
def setup():
    raise KeyError
try:
    mdp.activate_extension("c13_demo")
except KeyError:
    pass
sys.exit("active" if "c13_demo" in mdp.get_active_extensions() else 0)
"""),
dict(id="c14-checks-skipped", property="C14", file="mdp/caching/caching_extension.py",
 old="            self._pre_execution_checks(x)\n",
 new="            if self.is_trainable():\n                self._pre_execution_checks(x)\n",
 needs="a second equal node that is not trainable, executed for the first time with data that is in the cache",
 breaks="the node's dimensions and dtype stay unset when its first result comes from the cache",
 demo="""
import numpy as np, mdp
x = np.ones((4, 2))
with mdp.caching.cache():
    a, b = mdp.nodes.QuadraticExpansionNode(), mdp.nodes.QuadraticExpansionNode()
    a.execute(x)
    b.execute(x)
    sys.exit(0 if b.input_dim == 2 and b.output_dim == 5 else "dimensions unset")
"""),
dict(id="c15-stale-callable", property="C15", file="mdp/parallel/scheduling.py",
 old="""            self._last_callable = task_callable
            self._last_callable_index = self.task_counter
""",
 new="""            if task_callable is not self._last_callable:
                self._last_callable = task_callable
                self._last_callable_index = self.task_counter
""",
 needs="the same callable given again after it was changed, with the process scheduler's cache",
 breaks="a task runs with the state the callable had when it was cached",
 demo="""
import tempfile, shutil
import mdp
from mdp.parallel import ProcessScheduler
d = tempfile.mkdtemp()
open(os.path.join(d, "c15_callables.py"), "w").write('''
from mdp.parallel import TaskCallable
class Add(TaskCallable):
    k = 0
    def __call__(self, x):
        return x + self.k
''')
sys.path.insert(0, d)
import c15_callables
s = ProcessScheduler(n_processes=1, source_paths=[d, os.getcwd()])
try:
    c = c15_callables.Add()
    c.k = 1
    s.add_task(1, c)
    r = s.get_results()
    c.k = 100
    s.add_task(1, c)
    r += s.get_results()
finally:
    s.shutdown()
    shutil.rmtree(d)
sys.exit(0 if r == [2, 101] else "results %s" % r)
"""),
dict(id="c16-new-class", property="C16", file="mdp/parallel/parallelclassifiers.py",
 old="""                    self._join_covariance(self._cov_objs[key], forked_cov)
                else:
                    self._cov_objs[key] = forked_cov
""",
 new="""                    self._join_covariance(self._cov_objs[key], forked_cov)
""",
 needs="a class that does not occur in the first chunk",
 breaks="parallel training of a Gaussian classifier loses classes",
 demo="""
import numpy as np, mdp
rng = np.random.RandomState(0)
chunks = [(rng.randn(9, 2), l) for l in (1, 2, 1, 2)]
f = mdp.parallel.ParallelFlow([mdp.nodes.GaussianClassifier()])
f.train([chunks], scheduler=mdp.parallel.Scheduler())
sys.exit(0 if f[0].labels == [1, 2] else "labels %s" % f[0].labels)
"""),
dict(id="c16-fda-fork", property="C16", file="mdp/parallel/parallelnodes.py",
 old="""            forked_node._S_W = None
            forked_node._allcov = mdp.utils.CovarianceMatrix(dtype=self.dtype)
""",
 new="""            forked_node._S_W = None
            if self._S_W is None:
                forked_node._allcov = mdp.utils.CovarianceMatrix(dtype=self.dtype)
""",
 needs="a fork in the second phase of a node that has already absorbed results",
 breaks="the data already absorbed is counted once more for every later fork",
 demo="""
import numpy as np, mdp
rng = np.random.RandomState(0)
data = [(rng.randn(9, 2), l) for l in (1, 2, 1, 2)]
with mdp.extension("parallel"):
    n = mdp.nodes.FDANode()
    for d in data: n.train(*d)
    n.stop_training()
    for d in data:
        f = n.fork(); f.train(*d); n.join(f)
    t = n._allcov._tlen
sys.exit(0 if t == 36 else "%d samples" % t)
"""),
dict(id="c17-msg-key-leak", property="C17", file="bimdp/binode.py",
 old="""            if key in arg_keys:
                arg_dict[key] = msg.pop(fullkey)
            else:
                del msg[fullkey]
""",
 new="""            if key in arg_keys:
                arg_dict[key] = msg.pop(fullkey)
""",
 needs="a message key addressed to this node that its method does not take",
 breaks="keys addressed to a node are passed on to the nodes behind it",
 demo="""
import numpy as np, bimdp
class N(bimdp.BiNode):
    def is_trainable(self): return False
    def _execute(self, x, a=0): return x
n = N(node_id="n", input_dim=2, output_dim=2)
r = n.execute(np.ones((2, 2)), {"n->b": 3, "c": 4})
sys.exit(0 if r[1] == {"c": 4} else "message %s" % r[1])
"""),
dict(id="c18-wrap-around", property="C18", file="bimdp/biflow.py",
 old="                elif not 0 <= i_node < len(self.flow):",
 new="                elif not -len(self.flow) <= i_node < len(self.flow):",
 needs="a node that answers with a target far in front of the flow's beginning",
 breaks="an invalid target silently continues with a node at the end of the flow",
 demo="""
import numpy as np, bimdp
class N(bimdp.BiNode):
    def is_trainable(self): return False
    def _execute(self, x, k=None):
        if k is not None: return x, {}, k
        return x
class M(bimdp.BiNode):
    def is_trainable(self): return False
    def _execute(self, x): return x
f = bimdp.BiFlow([N(), M(), M()])
try:
    f.execute(np.ones((2, 2)), {"k": -2})
except bimdp.BiFlowException:
    sys.exit(0)
sys.exit("accepted")
"""),
dict(id="c19-lens", property="C19", file="mdp/nodes/expansion_nodes.py",
 old="                next_lens[j+1] = len_\n",
 new="                next_lens[j+1] = min(len_, 4 * dim * dim)\n",
 needs="degree 4 in more than a dozen variables, or higher degrees",
 breaks="some monomials of high degree are wrong",
 demo="""
import numpy as np, mdp, itertools
d, deg = 4, 8
x = np.random.RandomState(0).rand(2, d) + 1
y = mdp.nodes.PolynomialExpansionNode(deg).execute(x)
w = np.array([[np.prod(x[r, list(c)]) for k in range(1, deg+1)
               for c in itertools.combinations_with_replacement(range(d), k)] for r in range(2)])
sys.exit(0 if np.allclose(np.sort(y, 1), np.sort(w, 1)) else "wrong monomials")
"""),
dict(id="c20-zero-bound", property="C20", file="mdp/nodes/misc_nodes.py",
 old="        if self.lower_bound is not None:",
 new="        if self.lower_bound:",
 needs="a lower bound of zero",
 breaks="a bound of zero is not applied",
 demo="""
import numpy as np, mdp
y = mdp.nodes.CutoffNode(lower_bound=0, upper_bound=1).execute(np.array([[-1., .5, 2.]]))
sys.exit(0 if np.array_equal(y, [[0, .5, 1]]) else "not cut: %s" % y)
"""),
dict(id="c21-gap", property="C21", file="mdp/nodes/misc_nodes.py",
 old="                if ix[i]-im[lm] <= d and x[i] < m[lm]:",
 new="                if ix[i]-im[lm] < d and x[i] < m[lm]:",
 needs="two minima exactly d samples apart",
 breaks="the lower of two minima that are exactly the minimum gap apart is lost",
 demo="""
import numpy as np, mdp
n = mdp.nodes.HitParadeNode(1, 3)
x = np.array([5., 5, 5, 5, 5, 5, 5, 1, 5, 5, 0, 5, 5, 5])[:, None]
n.train(x)
m, i = n.get_minima()
sys.exit(0 if m[0, 0] == 0 and i[0, 0] == 10 else "minimum %s at %s" % (m, i))
"""),
dict(id="c22-batch-iterations", property="C22", file="mdp/signal_node_online.py",
 old="            self._train_iteration += x.shape[0]\n",
 new="            self._train_iteration += _x.shape[0]\n",
 needs="batch training of a node whose execution phases change the number of rows",
 breaks="the iteration counter does not count the samples the node was given",
 demo="""
import numpy as np, mdp
class N(mdp.OnlineNode):
    def _train(self, x): pass
    def _get_train_seq(self):
        return [(self._train, self._stop_training, lambda x: x[::2])]
n = N(); n.set_training_type('batch')
n.train(np.ones((6, 2)))
sys.exit(0 if n.get_current_train_iteration() == 6 else n.get_current_train_iteration())
"""),
dict(id="c23-last-sample", property="C23", file="mdp/nodes/sfa_nodes.py",
 old="""        if include_last_sample is None:
            include_last_sample = self._include_last_sample
        # works because x[:None] == x[:]
        last_sample_index = None if include_last_sample else -1

        # update the covariance matrices
        self._cov_mtx.update(x[:last_sample_index, :])
        self._dcov_mtx.update(self.time_derivative(x))
""",
 new="""        include_last_sample = include_last_sample or self._include_last_sample
        # works because x[:None] == x[:]
        last_sample_index = None if include_last_sample else -1

        # update the covariance matrices
        self._cov_mtx.update(x[:last_sample_index, :])
        self._dcov_mtx.update(self.time_derivative(x))
""",
 needs="train(x, include_last_sample=False) on a node whose default is to include it",
 breaks="an explicit include_last_sample=False is ignored",
 demo="""
import numpy as np, mdp
n = mdp.nodes.SFANode()
n.train(np.random.RandomState(0).randn(30, 2), include_last_sample=False)
n.stop_training()
sys.exit(0 if n.tlen == 29 else "tlen %s" % n.tlen)
"""),
dict(id="c23-range", property="C23", file="mdp/nodes/sfa_nodes.py",
 old="        if self.output_dim is not None and self.output_dim <= self.input_dim:",
 new="        if self.output_dim is not None and self.output_dim < self.input_dim - 1:",
 needs="an output dimension one below the input dimension",
 breaks="the node delivers more components than its output dimension says",
 demo="""
import numpy as np, mdp
n = mdp.nodes.SFANode(output_dim=3)
x = np.random.RandomState(0).randn(30, 4)
try:
    n.train(x)
    y = n.execute(x)
except Exception as e:
    sys.exit("raised %s" % e)
sys.exit(0 if y.shape[1] == 3 else "%d columns" % y.shape[1])
"""),
dict(id="c24-rank-threshold", property="C24", file="mdp/classifier_node.py",
 old="list(p.items()) if v > threshold)",
 new="list(p.items()) if v >= threshold)",
 needs="a label whose probability equals the threshold",
 breaks="labels with a probability equal to the threshold are not excluded",
 demo="""
import numpy as np, mdp
class C(mdp.ClassifierNode):
    def is_trainable(self): return False
    def _prob(self, x): return [{1: .5, 2: .25, 3: .25}] * len(x)
r = C().rank(np.ones((1, 2)), threshold=.25)
sys.exit(0 if r == [[1]] else "rank %s" % r)
"""),
dict(id="c24-label-index", property="C24", file="mdp/nodes/classifier_nodes.py",
 old="""            for label in set(labels):
                x_label = numx.compress(labels==label, x, axis=0)
                self._add_samples(x_label, label)""",
 new="""            for label in set(labels[:self.k * len(labels)]):
                x_label = numx.compress(labels==label, x, axis=0)
                self._add_samples(x_label, label)""",
 needs="", breaks="", demo="sys.exit(0)"),
]
SEEDS = [s for s in SEEDS if s["needs"]]
