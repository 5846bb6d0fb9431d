"""edits that keep the behaviour"""
REFACTORINGS = [
dict(id="eta-train", checks=["C21"], edits=[("mdp/nodes/misc_nodes.py", '''        rdata = data[:-1]
        self._mean += rdata.sum(axis=0)
        self._var += (rdata*rdata).sum(axis=0)
        self._tlen += rdata.shape[0]
        td_data = utils.timediff(data)
        self._diff2 += (td_data*td_data).sum(axis=0)
''', '''        td_data = utils.timediff(data)
        self._diff2 += (td_data**2).sum(axis=0)
        rdata = data[:-1, :]
        self._tlen += len(rdata)
        self._mean += numx.sum(rdata, axis=0)
        self._var += numx.sum(rdata**2, axis=0)
''')]),
dict(id="eta-stop", checks=["C21"], edits=[("mdp/nodes/misc_nodes.py", '''        delta = old_div((old_div(self._diff2,self._tlen)),var)
        self._delta = delta
        self._eta = old_div(numx.sqrt(delta),(2*numx.pi))
''', '''        self._delta = self._diff2/self._tlen/var
        self._eta = numx.sqrt(self._delta)/(2*numx.pi)
''')]),
dict(id="window-row", checks=["C20"], edits=[("mdp/nodes/misc_nodes.py", '''        if self.cur_idx-gap >= 0:
            new_row[n:] = self.sliding_wnd[self.cur_idx-gap, :-n]
''', '''        delayed_idx = self.cur_idx-gap
        if delayed_idx >= 0:
            new_row[n:] = self.sliding_wnd[delayed_idx, :cols-n]
'''), ("mdp/nodes/misc_nodes.py", '''        if self.cur_idx < rows-1:
            self.cur_idx = self.cur_idx+1 
        else:
            self.slide = True
''', '''        if self.cur_idx == rows-1:
            self.slide = True
        else:
            self.cur_idx += 1
''')]),
dict(id="cutoff-min", checks=["C20"], edits=[("mdp/nodes/misc_nodes.py", '''            x = numx.where(x >= self.lower_bound, x, self.lower_bound)
''', '''            x = numx.where(x < self.lower_bound, self.lower_bound, x)
''')]),
dict(id="hist-train", checks=["C20"], edits=[("mdp/nodes/misc_nodes.py", '''        if self.data_hist is not None:
            self.data_hist = numx.concatenate([self.data_hist, x])
        else:
            # the array can be changed by its owner after the training
            self.data_hist = x.copy()
''', '''        if self.data_hist is None:
            # the array can be changed by its owner after the training
            self.data_hist = x.copy()
            return
        self.data_hist = numx.concatenate((self.data_hist, x), axis=0)
''')]),
dict(id="topo-counts", checks=["C12"], edits=[("mdp/graph/graph.py", '''        for node in self.nodes:
            indegree = node.in_degree()
            if indegree == 0:
                topological_queue.append(node)
            else:
                remaining_indegree[node] = indegree
''', '''        for node in self.nodes:
            indegree = node.in_degree()
            if indegree:
                remaining_indegree[node] = indegree
            else:
                topological_queue.append(node)
'''), ("mdp/graph/graph.py", '''        while len(topological_queue):
            # remove the first''', '''        while topological_queue:
            # remove the first''')]),
dict(id="dfs-set", checks=["C12"], edits=[("mdp/graph/graph.py", '''        # stack (lifo) list
        dfs_stack = []
        dfs_stack.append(root)

        while len(dfs_stack):
''', '''        # stack (lifo) list
        dfs_stack = [root]

        while dfs_stack:
''')]),
dict(id="weakly", checks=["C12"], edits=[("mdp/graph/graph.py", '''        return len(self.undirected_dfs(self.nodes[0]))==len(self.nodes)
''', '''        reached = self.undirected_bfs(self.nodes[0])
        return len(reached) == len(self.nodes)
''')]),
dict(id="full-conn", checks=["C12"], edits=[("mdp/graph/graph.py", '''        edges = []
        for from_ in from_nodes:
            edges.append([self.add_edge(from_, x) for x in to_nodes])
        return edges
''', '''        return [[self.add_edge(from_, to) for to in to_nodes]
                for from_ in from_nodes]
''')]),
dict(id="sched-with", checks=["C15"], edits=[("mdp/parallel/scheduling.py", '''        self._lock.acquire()
        self._last_callable = task_callable
        # set _last_callable_index to half value since the callable is newer
        # than the last task, but not newer than the next incoming task
        self._last_callable_index = self.task_counter + 0.5
        self._lock.release()
''', '''        with self._lock:
            self._last_callable = task_callable
            # set _last_callable_index to half value since the callable is newer
            # than the last task, but not newer than the next incoming task
            self._last_callable_index = self.task_counter + 0.5
'''), ("mdp/parallel/scheduling.py", '''        self._lock.acquire()
        self._task_exceptions.append(exception)
        self._n_open_tasks -= 1
        self._lock.release()

    def get''', '''        with self._lock:
            self._n_open_tasks -= 1
            self._task_exceptions.append(exception)

    def get''')]),
dict(id="sched-results", checks=["C15"], edits=[("mdp/parallel/scheduling.py", '''            self._lock.acquire()
            if self._n_open_tasks == 0:
                try:
                    results = self.result_container.get_results()
                    if self._task_exceptions:
                        exception = self._task_exceptions[0]
                        self._task_exceptions = []
                        raise exception
                    return results
                finally:
                    self._lock.release()
            else:
                self._lock.release()
                time.sleep(1)
''', '''            with self._lock:
                if self._n_open_tasks == 0:
                    results = self.result_container.get_results()
                    exceptions, self._task_exceptions = self._task_exceptions, []
                    if exceptions:
                        raise exceptions[0]
                    return results
            time.sleep(1)
''')]),
dict(id="sched-add", checks=["C15"], edits=[("mdp/parallel/scheduling.py", '''        if task_callable is None:
            if self._last_callable is None:
                self._lock.release()
                raise Exception("No task_callable specified and " +
                                "no previous callable available.")
''', '''        if task_callable is None and self._last_callable is None:
            self._lock.release()
            raise Exception("No task_callable specified and "
                            "no previous callable available.")
''')]),
dict(id="cov-avg", checks=["C07"], edits=[("mdp/utils/covariance.py", '''        if center:
            avg_mtx = numx.outer(avg, avg)
            if self.bias:
                avg_mtx /= tlen*(tlen)
            else:
                avg_mtx /= tlen*(tlen - 1)
            cov_mtx -= avg_mtx
''', '''        if center:
            norm = tlen if self.bias else tlen - 1
            cov_mtx -= numx.outer(avg, avg)/(tlen*norm)
''')]),
dict(id="cov-gap", checks=["C07"], edits=[("mdp/utils/covariance.py", '''                elif dt is None:
                    self._avg += (self.xlast + x[0, :])*1./2.
                    self._cov_mtx += (numx.outer(self.xlast, self.xlast) +
                                      numx.outer(x[0, :], x[0, :]))*1./2.
                    self._tlen += 1.
''', '''                elif dt is None:
                    first = x[0, :]
                    self._avg += (self.xlast + first)/2.
                    self._cov_mtx += (numx.outer(self.xlast, self.xlast) +
                                      numx.outer(first, first))/2.
                    self._tlen += 1.
''')]),
dict(id="cache-exec", checks=["C14"], edits=[("mdp/caching/caching_extension.py", '''        if not self.is_cached():
            return self._non_extension_execute(x, *args, **kwargs)

        if self not in''', '''        cached = self.is_cached()
        if not cached:
            return self._non_extension_execute(x, *args, **kwargs)

        if self not in'''), ("mdp/caching/caching_extension.py", '''                joblib.hash(self)
                _cached_methods[self] = _memory.cache(executor)
            except Exception:
                # the node can not be pickled, so it can not be cached
                _cached_methods[self] = executor

        return _cached_methods[self](self, x, *args, **kwargs)
''', '''                joblib.hash(self)
                method = _memory.cache(executor)
            except Exception:
                # the node can not be pickled, so it can not be cached
                method = executor
            _cached_methods[self] = method

        method = _cached_methods[self]
        return method(self, x, *args, **kwargs)
''')]),
dict(id="cache-lists", checks=["C14"], edits=[("mdp/caching/caching_extension.py", '''    _cached_classes = list(cache_classes or [])
    _cached_instances = list(cache_instances or [])
''', '''    _cached_classes = [] if cache_classes is None else list(cache_classes)
    _cached_instances = [] if cache_instances is None else list(cache_instances)
''')]),
]
