"""edits that keep the behaviour"""
REFACTORINGS = [
dict(id="layer-helper", checks=["C10"], edits=[("mdp/hinet/layer.py", '''        start_index = 0
        stop_index = 0
        for node in self.nodes:
            start_index = stop_index
            stop_index += node.input_dim
            if node.is_training():
                node.train(x[:, start_index: stop_index], *args, **kwargs)
''', '''        for node, block in self._input_blocks(x):
            if node.is_training():
                node.train(block, *args, **kwargs)

    def _input_blocks(self, x):
        """Return the nodes with their parts of x."""
        start_index = 0
        for node in self.nodes:
            stop_index = start_index + node.input_dim
            yield node, x[:, start_index:stop_index]
            start_index = stop_index
''')]),
dict(id="layer-offset", checks=["C10"], edits=[("mdp/hinet/layer.py", '''        start_index = 0
        stop_index = 0
        for node in self.nodes:
            start_index = stop_index
            stop_index += node.input_dim
            if node.is_training():
                node.train(x[:, start_index: stop_index], *args, **kwargs)
''', '''        offset = 0
        for node in self.nodes:
            width = node.input_dim
            if node.is_training():
                block = x[:, offset:offset + width]
                node.train(block, *args, **kwargs)
            offset += width
''')]),
dict(id="layer-trainseq", checks=["C10"], edits=[("mdp/hinet/layer.py", '''        max_train_length = 0
        for node in self.nodes:
            node_length = len(node._get_train_seq())
            if node_length > max_train_length:
                max_train_length = node_length
''', '''        max_train_length = max([len(node._get_train_seq())
                                for node in self.nodes])
''')]),
dict(id="flownode-seq", checks=["C11"], edits=[("mdp/hinet/flownode.py", '''                if _i_node > 0:
                    _node.train(self._flow.execute(x, nodenr=_i_node-1),
                                *args, **kwargs)
                else:
                    _node.train(x, *args, **kwargs)
''', '''                if _i_node > 0:
                    x = self._flow.execute(x, nodenr=_i_node-1)
                _node.train(x, *args, **kwargs)
''')]),
dict(id="flow-train-helper", checks=["C03", "C06"], edits=[("mdp/linear_flows.py", '''                    # check if the required number of arguments was given
                    if train_args_needed:
                        if len(train_arg_keys) != len(arg):
                            err = ("Wrong number of arguments provided by " +
                                   "the iterable for node #%d " % nodenr +
                                   "(%d needed, %d given).\\n" %
                                   (len(train_arg_keys), len(arg)) +
                                   "List of required argument keys: " +
                                   str(train_arg_keys))
                            raise FlowException(err)
''', '''                    self._check_train_args(nodenr, train_arg_keys, arg)
'''), ("mdp/linear_flows.py", '''    def _stop_training_hook(self):
        """Hook''', '''    @staticmethod
    def _check_train_args(nodenr, train_arg_keys, arg):
        """Check if the required number of arguments was given."""
        needed, given = len(train_arg_keys), len(arg)
        if needed and needed != given:
            raise FlowException("Wrong number of arguments provided by the "
                                "iterable for node #%d (%d needed, %d given)."
                                "\\nList of required argument keys: %s"
                                % (nodenr, needed, given, train_arg_keys))

    def _stop_training_hook(self):
        """Hook''')]),
dict(id="flow-isinstance", checks=["C03"], edits=[("mdp/linear_flows.py", '''                    if (type(x) is tuple) or (type(x) is list):
                        arg = x[1:]
                        x = x[0]
                    else:
                        arg = ()
''', '''                    arg = ()
                    if type(x) in (tuple, list):
                        x, arg = x[0], x[1:]
''')]),
dict(id="sched-try", checks=["C15"], edits=[("mdp/parallel/scheduling.py", '''        self._lock.acquire()
        self._task_exceptions.append(exception)
        self._n_open_tasks -= 1
        self._lock.release()
''', '''        self._lock.acquire()
        try:
            self._task_exceptions.append(exception)
            self._n_open_tasks -= 1
        finally:
            self._lock.release()
''')]),
dict(id="sched-helper", checks=["C15"], edits=[("mdp/parallel/scheduling.py", '''        self._n_open_tasks += 1
        self._task_counter += 1
        task_index = self.task_counter
        if task_callable is None:
''', '''        task_index = self._new_task_index()
        if task_callable is None:
'''), ("mdp/parallel/scheduling.py", '''    def set_task_callable(self, task_callable):
''', '''    def _new_task_index(self):
        """Count a new task, the lock must be held."""
        self._task_counter += 1
        self._n_open_tasks += 1
        return self._task_counter

    def set_task_callable(self, task_callable):
''')]),
dict(id="cov-reorder", checks=["C07"], edits=[("mdp/utils/covariance.py", '''        self._cov_mtx += mdp.utils.mult(x.T, x)
        self._avg += x.sum(axis=0)
        self._tlen += x.shape[0]

    def fix(self, center=True):
        """Returns a triple containing the covariance matrix, the average and
        the number of observations. The covariance matrix is then reset to
        a zero-state.

        If center''', '''        n_samples = x.shape[0]
        self._tlen += n_samples
        self._avg += x.sum(axis=0)
        self._cov_mtx += mdp.utils.mult(x.T, x)

    def fix(self, center=True):
        """Returns a triple containing the covariance matrix, the average and
        the number of observations. The covariance matrix is then reset to
        a zero-state.

        If center''')]),
dict(id="cov-norm", checks=["C07"], edits=[("mdp/utils/covariance.py", '''        if self.bias:
            cov_mtx /= tlen
        else:
            cov_mtx /= tlen - 1

        if center:
            avg_mtx = numx.outer(avg, avg)
            if self.bias:
                avg_mtx /= tlen*(tlen)
            else:
                avg_mtx /= tlen*(tlen - 1)
            cov_mtx -= avg_mtx
''', '''        norm = tlen if self.bias else tlen - 1
        cov_mtx /= norm
        if center:
            avg_mtx = numx.outer(avg, avg)
            avg_mtx /= tlen*norm
            cov_mtx -= avg_mtx
''')]),
dict(id="poly-loop", checks=["C19"], edits=[("mdp/nodes/expansion_nodes.py", '''                factor = prec[lens[j]:, :]
                len_ = factor.shape[0]
                dexp[k:k+len_, :] = x[:, j] * factor
                next_lens[j+1] = len_
                k = k+len_
''', '''                factor = prec[lens[j]:, :]
                stop = k + factor.shape[0]
                dexp[k:stop, :] = factor * x[:, j]
                next_lens[j+1] = stop - k
                k = stop
''')]),
dict(id="frames-while", checks=["C20"], edits=[("mdp/nodes/misc_nodes.py", '''        for frame in range(self.time_frames):
            y[:, frame*rows:(frame+1)*rows] = x[gap*frame:gap*frame+tf, :]
''', '''        frame = 0
        while frame < self.time_frames:
            first = gap*frame
            y[:, frame*rows:(frame+1)*rows] = x[first:first+tf, :]
            frame += 1
''')]),
dict(id="node-stop", checks=["C01", "C02", "C22"], edits=[("mdp/signal_node.py", '''        self._train_phase_started = False
        # check if we have some training phase left
        if self.get_remaining_train_phase() == 0:
            self._training = False
''', '''        # check if we have some training phase left
        self._training = self._training and self.get_remaining_train_phase() > 0
        self._train_phase_started = False
''')]),
dict(id="biflow-elif", checks=["C18"], edits=[("bimdp/biflow.py", '''            if key in self._msg_results:
                err = ("A key in the msg results is used with "
                       "different data types.")
                raise BiFlowException(err)
            else:
                self._msg_results[key] = n.concatenate(
                                                self._msg_array_results[key])
''', '''            if key in self._msg_results:
                raise BiFlowException("A key in the msg results is used with "
                                      "different data types.")
            arrays = self._msg_array_results[key]
            self._msg_results[key] = n.concatenate(arrays)
''')]),
dict(id="cumulator", checks=["C01", "C16", "C23"], edits=[("mdp/signal_node.py", '''            for field in self._cumulator_fields:
                data = getattr(self, field)
                setattr(self, field, numx.concatenate(data, 0))
''', '''            for field in self._cumulator_fields:
                joined = numx.concatenate(getattr(self, field), 0)
                setattr(self, field, joined)
''')]),
]
