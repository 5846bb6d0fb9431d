"""edits that keep the behaviour"""
REFACTORINGS = [
dict(id="pca-reverse", checks=["C23"], edits=[("mdp/nodes/pca_nodes.py", '''        d = numx.take(d, list(range(d.shape[0]-1, -1, -1)))
        v = v[:, ::-1]
''', '''        d, v = d[::-1], v[:, ::-1]
''')]),
dict(id="pca-execute", checks=["C23"], edits=[("mdp/nodes/pca_nodes.py", '''        if n is not None:
            return mult(x-self.avg, self.v[:, :n])
        return mult(x-self.avg, self.v)
''', '''        v = self.v if n is None else self.v[:, :n]
        return mult(x-self.avg, v)
''')]),
dict(id="pca-inverse", checks=["C23"], edits=[("mdp/nodes/pca_nodes.py", '''        v = self.get_recmatrix()
        if n is not None:
            return mult(y, v[:n, :]) + self.avg
        return mult(y, v) + self.avg
''', '''        recmatrix = self.get_recmatrix()[:n, :]
        return self.avg + mult(y, recmatrix)
''')]),
dict(id="pca-range", checks=["C23"], edits=[("mdp/nodes/pca_nodes.py", '''        if self.desired_variance is None and self.output_dim is None:
            self.output_dim = self.input_dim
            return None
''', '''        if self.output_dim is None and self.desired_variance is None:
            self.output_dim = self.input_dim
''')]) if 0 else
dict(id="white", checks=["C23"], edits=[("mdp/nodes/pca_nodes.py", '''        self.v = old_div(self.v, numx.sqrt(self.d))
''', '''        scale = numx.sqrt(self.d)
        self.v = self.v / scale
''')]),
dict(id="pca-vartot", checks=["C23"], edits=[("mdp/nodes/pca_nodes.py", '''        vartot = numx.diag(self.cov_mtx).sum()
''', '''        vartot = self.cov_mtx.diagonal().sum()
''')]),
dict(id="sfa-derivative", checks=["C23"], edits=[("mdp/nodes/sfa_nodes.py", '''        return x[1:, :]-x[:-1, :]
''', '''        later, earlier = x[1:], x[:-1]
        return later - earlier
''')]),
dict(id="sfa-train", checks=["C23", "C16"], edits=[("mdp/nodes/sfa_nodes.py", '''        last_sample_index = None if include_last_sample else -1

''', '''        samples = x if include_last_sample else x[:-1, :]

'''), ("mdp/nodes/sfa_nodes.py", '''        self._cov_mtx.update(x[:last_sample_index, :])
        self._dcov_mtx.update(self.time_derivative(x))

    def _stop''', '''        self._dcov_mtx.update(self.time_derivative(x))
        self._cov_mtx.update(samples)

    def _stop''')]),
dict(id="sfa-execute", checks=["C23"], edits=[("mdp/nodes/sfa_nodes.py", '''        if n:
            sf = self.sf[:, :n]
            bias = self._bias[:n]
        else:
            sf = self.sf
            bias = self._bias
        return mult(x, sf) - bias
''', '''        sf, bias = self.sf, self._bias
        if n:
            sf, bias = sf[:, :n], bias[:n]
        y = mult(x, sf)
        y -= bias
        return y
''')]),
dict(id="fda-stop", checks=["C23"], edits=[("mdp/nodes/fda_nodes.py", '''        if self.output_dim is None:
            rng = None
            self.output_dim = self.input_dim
        else:
            rng = (1, self.output_dim)
        self.v = mdp.utils.symeig(S_W, S_T, range=rng, overwrite = 1)[1]
''', '''        rng = None
        if self.output_dim is not None:
            rng = (1, self.output_dim)
        else:
            self.output_dim = self.input_dim
        _, self.v = mdp.utils.symeig(S_W, S_T, range=rng, overwrite=True)
''')]),
dict(id="fda-sw", checks=["C23"], edits=[("mdp/nodes/fda_nodes.py", '''        x = x - self.means[label]
        self._S_W += mdp.utils.mult(x.T, x)
''', '''        centered = x - self.means[label]
        self._S_W = self._S_W + mdp.utils.mult(centered.T, centered)
''')]),
dict(id="fda-setdefault", checks=["C23"], edits=[("mdp/nodes/fda_nodes.py", '''        if label not in self.means:
            self.means[label] = numx.zeros((1, self.input_dim), dtype=self.dtype)
            self.tlens[label] = 0
        self.means[label] += x.sum(axis=0)
        self.tlens[label] += x.shape[0]
''', '''        if label not in self.tlens:
            self.tlens[label] = 0
            self.means[label] = numx.zeros((1, self.input_dim), dtype=self.dtype)
        self.tlens[label] += len(x)
        self.means[label] += numx.sum(x, axis=0)
''')]),
dict(id="fda-labels", checks=["C23"], edits=[("mdp/nodes/fda_nodes.py", '''            for label in set(labels_):
                # group for class
                x_label = numx.compress(labels_==label, x, axis=0)
                self._update_SW(x_label, label)
''', '''            for label in set(labels_):
                self._update_SW(x[labels_ == label], label)
''')]),
dict(id="ext-helper", checks=["C13"], edits=[("mdp/extension.py", '''def activate_extension(extension_name, verbose=False):
''', '''def _class_attributes(extension_name):
    """Return the (class, attributes) pairs of the extension."""
    return [(cls, attributes)
            for cls, attributes in _extensions[extension_name].items()
            if cls not in (_SETUP_FUNC_ATTR, _TEARDOWN_FUNC_ATTR)]

def activate_extension(extension_name, verbose=False):
'''), ("mdp/extension.py", '''        for node_cls, attributes in list(_extensions[extension_name].items()):
            if node_cls == _SETUP_FUNC_ATTR or node_cls == _TEARDOWN_FUNC_ATTR:
                continue
            for attr_name, attr_value in list(attributes.items()):
                if verbose:
                    print ("extension %s: adding''', '''        for node_cls, attributes in _class_attributes(extension_name):
            for attr_name, attr_value in list(attributes.items()):
                if verbose:
                    print ("extension %s: adding'''), ("mdp/extension.py", '''    for node_cls, attributes in list(_extensions[extension_name].items()):
        if node_cls == _SETUP_FUNC_ATTR or node_cls == _TEARDOWN_FUNC_ATTR:
            continue
        for attr_name in list(attributes.keys()):
''', '''    for node_cls, attributes in _class_attributes(extension_name):
        for attr_name in list(attributes):
''')]),
dict(id="ext-unknown", checks=["C13"], edits=[("mdp/extension.py", '''    if extension_name not in list(_extensions.keys()):
        err = "Unknown extension name: %s"%str(extension_name)
        raise ExtensionException(err)
''', '''    if extension_name not in _extensions:
        raise ExtensionException("Unknown extension name: " +
                                 str(extension_name))
'''), ("mdp/extension.py", '''    if extension_name not in list(_extensions.keys()):
        err = "Unknown extension name: " + str(extension_name)
''', '''    if extension_name not in _extensions:
        err = "Unknown extension name: " + str(extension_name)
''')]),
dict(id="ext-wrapper", checks=["C13"], edits=[("mdp/extension.py", '''            if extension_name not in get_active_extensions():
                try:
                    activate_extension(extension_name)
                    result = func(*args, **kwargs)
                finally:
                    deactivate_extension(extension_name)
            else:
                result = func(*args, **kwargs)
            return result
''', '''            if extension_name in get_active_extensions():
                return func(*args, **kwargs)
            activate_extension(extension_name)
            try:
                return func(*args, **kwargs)
            finally:
                deactivate_extension(extension_name)
''')]),
dict(id="par-container", checks=["C16"], edits=[("mdp/parallel/parallelflows.py", '''        flownode_results = ([self._flownode,]
                              + ([None] * (len(excecute_results)-1)))
        self._flownode = None
        return list(zip(excecute_results, flownode_results))
''', '''        flownode, self._flownode = self._flownode, None
        return [(result, flownode if i == 0 else None)
                for i, result in enumerate(excecute_results)]
''')]),
dict(id="par-drain", checks=["C16"], edits=[("mdp/parallel/parallelflows.py", '''                    while self.task_available:
                        task = self.get_task()
                        scheduler.add_task(*task)
                    results = scheduler.get_results()
                    if results == []:
                        err = ("Could not get any training tasks or results "
                               "for the current training phase.")
                        raise Exception(err)
                    else:
                        self.use_results(results)
''', '''                    while self.task_available:
                        data, task_callable = self.get_task()
                        scheduler.add_task(data, task_callable)
                    results = scheduler.get_results()
                    if results == []:
                        raise Exception("Could not get any training tasks or "
                                        "results for the current training "
                                        "phase.")
                    self.use_results(results)
''')]),
dict(id="par-exec", checks=["C16"], edits=[("mdp/parallel/parallelflows.py", '''        y = self._flownode._flow.execute(x, nodenr=self._nodenr)
        if self._flownode.use_execute_fork():
            if self._purge_nodes:
                _purge_flownode(self._flownode)
            return (y, self._flownode)
        else:
            return (y, None)
''', '''        flownode = self._flownode
        y = flownode._flow.execute(x, nodenr=self._nodenr)
        if not flownode.use_execute_fork():
            return (y, None)
        if self._purge_nodes:
            _purge_flownode(flownode)
        return (y, flownode)
''')]),
dict(id="par-next", checks=["C16"], edits=[("mdp/parallel/parallelflows.py", '''        try:
            return (next(self._train_data_iterator), None)
        except StopIteration:
            return None
''', '''        for x in self._train_data_iterator:
            return (x, None)
        return None
''')]),
dict(id="online-train", checks=["C22"], edits=[("mdp/signal_node_online.py", '''            x = x[:, None, :]  # to train sample by sample with 2D shape
            for _x in x:
                for _phase in range(len(self._train_seq)):
                    self._train_seq[_phase][0](_x, *args, **kwargs)
                    # legacy support for _train_seq.
                    if len(self._train_seq[_phase]) > 2:
                        _x = self._train_seq[_phase][2](_x, *args, **kwargs)
                self._train_iteration += 1
''', '''            for row in range(x.shape[0]):
                _x = x[row:row+1, :]
                for phase in self._train_seq:
                    phase[0](_x, *args, **kwargs)
                    # legacy support for _train_seq.
                    if len(phase) > 2:
                        _x = phase[2](_x, *args, **kwargs)
                self._train_iteration += 1
''')]),
dict(id="online-helper", checks=["C22"], edits=[("mdp/signal_node_online.py", '''            for _x in x:
                for _phase in range(len(self._train_seq)):
                    self._train_seq[_phase][0](_x, *args, **kwargs)
                    # legacy support for _train_seq.
                    if len(self._train_seq[_phase]) > 2:
                        _x = self._train_seq[_phase][2](_x, *args, **kwargs)
                self._train_iteration += 1
        else:
            _x = x
            for _phase in range(len(self._train_seq)):
                self._train_seq[_phase][0](_x, *args, **kwargs)
                # legacy support for _train_seq.
                if len(self._train_seq[_phase]) > 2:
                    _x = self._train_seq[_phase][2](_x, *args, **kwargs)
            self._train_iteration += x.shape[0]
''', '''            for _x in x:
                self._run_phases(_x, *args, **kwargs)
                self._train_iteration += 1
        else:
            self._run_phases(x, *args, **kwargs)
            self._train_iteration += x.shape[0]

    def _run_phases(self, x, *args, **kwargs):
        """Train all phases on x."""
        for phase in self._train_seq:
            phase[0](x, *args, **kwargs)
            # legacy support for _train_seq.
            if len(phase) > 2:
                x = phase[2](x, *args, **kwargs)
''')]),
dict(id="switch-channels", checks=["C09"], edits=[("mdp/hinet/switchboard.py", '''        channels_input = self.connections.reshape((-1, self.out_channel_dim))
        channels_input = channels_input[channels].reshape(-1)
        covered = numx.zeros(self.input_dim, dtype="bool")
        covered[channels_input] = True
        # reshape to perform logical OR over the input channels
        covered = covered.reshape((-1, self.in_channel_dim))
        covered = covered.sum(axis=1, dtype=bool)
        return covered.nonzero()[0]
''', '''        inputs = self.connections.reshape((-1, self.out_channel_dim))[channels]
        return numx.unique(inputs // self.in_channel_dim)
''')]),
dict(id="switch-rect", checks=["C09", "C08"], edits=[("mdp/hinet/switchboard.py", '''        for y_out_chan in range(self.out_channels_xy[1]):
            for x_out_chan in range(self.out_channels_xy[0]):
                # inner loop over field
                x_start_chan = x_out_chan * field_spacing_xy[0]
                y_start_chan = y_out_chan * field_spacing_xy[1]
''', '''        for y_start_chan in range(0, y_out_channels * field_spacing_xy[1],
                                  field_spacing_xy[1]):
            for x_start_chan in range(0, x_out_channels * field_spacing_xy[0],
                                      field_spacing_xy[0]):
                # inner loop over field
''')]),
dict(id="switch-unused", checks=["C09"], edits=[("mdp/hinet/switchboard.py", '''        x_out_channels = (((in_channels_xy[0] - field_channels_xy[0]) //
                           field_spacing_xy[0]) + 1)
        x_unused_channels = in_channels_xy[0] - field_channels_xy[0]
        if x_unused_channels > 0:
            x_unused_channels %= field_spacing_xy[0]
        elif x_unused_channels < 0:
            x_unused_channels = in_channels_xy[0]
''', '''        x_steps, x_unused_channels = divmod(
            in_channels_xy[0] - field_channels_xy[0], field_spacing_xy[0])
        x_out_channels = x_steps + 1
''')]),
]
