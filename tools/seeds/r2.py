"""edits that keep the behaviour"""
REFACTORINGS = [
dict(id="inverse-early", checks=["C04"], edits=[("mdp/linear_flows.py", '''        res = []
        empty_iterator = True
        for x in iterable:
            empty_iterator = False
            res.append(self._inverse_seq(x))
        if empty_iterator:
            errstr = ("The inverse data iterator is empty.")
            raise FlowException(errstr)
        return numx.concatenate(res)
''', '''        res = [self._inverse_seq(x) for x in iterable]
        if not res:
            raise FlowException("The inverse data iterator is empty.")
        return numx.concatenate(res)
''')]),
dict(id="consistency-zip", checks=["C05"], edits=[("mdp/linear_flows.py", '''        len_flow = len(flow)
        for i in range(1, len_flow):
            out = flow[i-1].output_dim
            inp = flow[i].input_dim
            self._check_dimension_consistency(out, inp)
''', '''        for i in range(len(flow) - 1):
            self._check_dimension_consistency(flow[i].output_dim,
                                              flow[i+1].input_dim)
''')]),
dict(id="setitem-loop", checks=["C05"], edits=[("mdp/linear_flows.py", '''            value = list(value)
            [self._check_value_type_isnode(item) for item in value]
''', '''            value = list(value)
            for item in value:
                self._check_value_type_isnode(item)
''')]),
dict(id="switch-invertible", checks=["C08"], edits=[("mdp/hinet/switchboard.py", '''        if self.inverse_connections is None:
            return False
        else:
            return True
''', '''        return self.inverse_connections is not None
''')]),
dict(id="switch-mean", checks=["C08"], edits=[("mdp/hinet/switchboard.py", '''                y[:,i_y] = old_div(numx.sum(x[:,y_cons[i_x_counter:
                                               i_x_counter + n_cons]],
                                    axis=1), n_cons)
                i_x_counter += n_cons
''', '''                i_x_stop = i_x_counter + n_cons
                sources = y_cons[i_x_counter:i_x_stop]
                y[:,i_y] = old_div(x[:,sources].sum(axis=1), n_cons)
                i_x_counter = i_x_stop
''')]),
dict(id="graph-remove", checks=["C12"], edits=[("mdp/graph/graph.py", '''        head, tail = edge.get_ends()
        # remove from head
        head.remove_edge_out(edge)
        # remove from tail
        tail.remove_edge_in(edge)
        # remove the edge
        self.edges.remove(edge)
''', '''        # remove the edge
        self.edges.remove(edge)
        # remove from tail and head
        edge.get_tail().remove_edge_in(edge)
        edge.get_head().remove_edge_out(edge)
''')]),
dict(id="graph-filter", checks=["C12"], edits=[("mdp/graph/graph.py", '''        inedges = self.ein[:]
        if from_:
            inedges = [edge for edge in inedges if edge.head == from_]
        return inedges
''', '''        if not from_:
            return list(self.ein)
        return [edge for edge in self.ein if edge.get_head() == from_]
''')]),
dict(id="binode-args", checks=["C17"], edits=[("bimdp/binode.py", '''        for key, fullkey in msg_id_keys:
            if key in arg_keys:
                arg_dict[key] = msg.pop(fullkey)
            else:
                del msg[fullkey]
''', '''        for key, fullkey in msg_id_keys:
            value = msg.pop(fullkey)
            if key in arg_keys:
                arg_dict[key] = value
''')]),
dict(id="binode-idkeys", checks=["C17"], edits=[("bimdp/binode.py", '''        msg_id_keys = []
        for fullkey in msg:
            if fullkey.find(MSG_ID_SEP) > 0:
                node_id, key = fullkey.split(MSG_ID_SEP, 1)
                if node_id == self._node_id:
                    msg_id_keys.append((key, fullkey))
        return msg_id_keys
''', '''        msg_id_keys = []
        for fullkey in msg:
            if fullkey.find(MSG_ID_SEP) <= 0:
                continue
            parts = fullkey.split(MSG_ID_SEP, 1)
            if parts[0] == self._node_id:
                msg_id_keys.append((parts[1], fullkey))
        return msg_id_keys
''')]),
dict(id="rank-loop", checks=["C24"], edits=[("mdp/classifier_node.py", '''            if threshold is None:
                ranking = list(p.items())
            else:
                ranking = ((k, v) for k, v in list(p.items()) if v > threshold)
            result = [k for k, v in
                      sorted(ranking, key=operator.itemgetter(1), reverse=True)]
            all_ranking.append(result)
''', '''            ranking = list(p.items())
            if threshold is not None:
                ranking = [item for item in ranking if item[1] > threshold]
            ranking.sort(key=operator.itemgetter(1), reverse=True)
            all_ranking.append([k for k, v in ranking])
''')]),
dict(id="gauss-total", checks=["C24"], edits=[("mdp/nodes/classifier_nodes.py", '''            tmp_prob[:, i] = self._gaussian_prob(x, i)
            tmp_prob[:, i] *= self.p[i]
''', '''            tmp_prob[:, i] = self._gaussian_prob(x, i) * self.p[i]
''')]),
dict(id="cumulator-labels", checks=["C24"], edits=[("mdp/classifier_node.py", '''        self.tlen += x.shape[0]
        self.data.extend(x.ravel().tolist())

        # if labels is a number, all x's belong to the same class
        if isinstance(labels, numx.ndarray):
            labels = labels.ravel().tolist()
        elif not isinstance(labels, (list, tuple)):
            labels = [labels] * x.shape[0]

        self.labels.extend(labels)
''', '''        n_samples = x.shape[0]
        # if labels is a number, all x's belong to the same class
        if isinstance(labels, numx.ndarray):
            labels = labels.ravel().tolist()
        elif not isinstance(labels, (list, tuple)):
            labels = [labels] * n_samples
        self.labels += list(labels)
        self.data.extend(x.ravel().tolist())
        self.tlen += n_samples
''')]),
dict(id="hit-swap", checks=["C21"], edits=[("mdp/nodes/misc_nodes.py", '''            if x[i] > M[k1]:
                if ix[i]-iM[lM] <= d and x[i] > M[lM]:
                    M[lM] = x[i]
                    iM[lM] = ix[i]
                elif ix[i]-iM[lM] > d:
                    M[k1] = x[i]
                    iM[k1] = ix[i]
                    lM = k1
''', '''            if x[i] > M[k1]:
                if ix[i]-iM[lM] > d:
                    M[k1], iM[k1] = x[i], ix[i]
                    lM = k1
                elif x[i] > M[lM]:
                    M[lM], iM[lM] = x[i], ix[i]
''')]),
dict(id="cache-order", checks=["C14"], edits=[("mdp/caching/caching_extension.py", '''        return (_cache_active_global
                or self.__class__ in _cached_classes
                or self in _cached_instances)
''', '''        if _cache_active_global or self in _cached_instances:
            return True
        return self.__class__ in _cached_classes
''')]),
dict(id="quiet-node", checks=["C01", "C02", "C17"], edits=[("mdp/signal_node.py", '''        self._pre_execution_checks(x)
        return self._execute(self._refcast(x), *args, **kwargs)
''', '''        self._pre_execution_checks(x)
        x_cast = self._refcast(x)
        result = self._execute(x_cast, *args, **kwargs)
        return result
''')]),
]
