From 5cb27661b31e74fd93e23a97515246fb223dc772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 01/76] fix: RBM nodes refuse inverse() as they are not
 invertible

RBMNode overrode _pre_inversion_checks() without the invertibility check, so
inverse() ended the training phase and returned None.
---
 mdp/nodes/rbm_nodes.py | 1048 ++++++++++++++++++++--------------------
 1 file changed, 524 insertions(+), 524 deletions(-)

diff --git a/mdp/nodes/rbm_nodes.py b/mdp/nodes/rbm_nodes.py
index 7fa5c20..efa1083 100644
--- a/mdp/nodes/rbm_nodes.py
+++ b/mdp/nodes/rbm_nodes.py
@@ -1,525 +1,525 @@
-from __future__ import print_function
-from __future__ import division
-from builtins import range
-from past.utils import old_div
-__docformat__ = "restructuredtext en"
-
-import mdp
-from mdp import numx
-from mdp.utils import mult
-
-random = mdp.numx_rand.random
-randn = mdp.numx_rand.randn
-exp = mdp.numx.exp
-
-# TODO: does it make sense to define the inverse of RBMNode as sampling
-#    from the visible layer given an hidden state?
-
-# this and the other replication functions should go in mdp.utils
-def rrep(x, n):
-    """Replicate x n-times on a new last dimension.
-
-    :param x: The object to replicate.
-    :type x: numpy.ndarray
-
-    :param n: Number of replicas.
-    :type n: int
-    """
-    shp = x.shape + (1,)
-    return x.reshape(shp).repeat(n, axis=-1)
-
-
-class RBMNode(mdp.Node):
-    """Restricted Boltzmann Machine node. An RBM is an undirected
-    probabilistic network with binary variables. The graph is
-    bipartite into observed (*visible*) and hidden (*latent*) variables.
-    By default, the ``execute`` method returns the *probability* of
-    one of the hiden variables being equal to 1 given the input.
-    Use the ``sample_v`` method to sample from the observed variables
-    given a setting of the hidden variables, and ``sample_h`` to do the
-    opposite. The ``energy`` method can be used to compute the energy
-    of a given setting of all variables.
-
-    |
-
-    .. admonition:: Reference
-
-        For more information on RBMs, see
-        Geoffrey E. Hinton (2007) Boltzmann machine. Scholarpedia, 2(5):1668
-
-        The network is trained by Contrastive Divergence, as described in
-        Hinton, G. E. (2002). Training products of experts by minimizing
-        contrastive divergence. Neural Computation, 14(8):1711-1800
-
-    :ivar w: Generative weights between hidden and observed variables.
-
-    :ivar bv: Bias vector of the observed variables.
-
-    :ivar bh: Bias vector of the hidden variables.
-    """
-
-    def __init__(self, hidden_dim, visible_dim = None, dtype = None):
-        """Initializes an object of type 'RBMNode'.
-
-        :param hidden_dim: Number of hidden variables.
-        :type hidden_dim: int
-
-        :param visible_dim: Number of observed variables.
-            Default is None.
-        :type visible_dim: int
-
-        :param dtype: Datatype of the input.
-            Default is None.
-        :type dtype: numpy.dtype, str
-        """
-        super(RBMNode, self).__init__(visible_dim, hidden_dim, dtype)
-        self._initialized = False
-
-    def _init_weights(self):
-        # weights and biases are initialized to small random values to
-        # break the simmetry that might lead to degenerate solutions during
-        # learning
-        self._initialized = True
-
-        # weights
-        self.w = self._refcast(randn(self.input_dim, self.output_dim)*0.1)
-        # bias on the visibile (input) units
-        self.bv = self._refcast(randn(self.input_dim)*0.1)
-        # bias on the hidden (output) units
-        self.bh = self._refcast(randn(self.output_dim)*0.1)
-
-        # delta w, bv, bh used for momentum term
-        self._delta = (0., 0., 0.)
-
-    def _sample_h(self, v):
-        # returns P(h=1|v,W,b) and a sample from it
-        probs = old_div(1.,(1. + exp(-self.bh - mult(v, self.w))))
-        h = (probs > random(probs.shape)).astype(self.dtype)
-        return probs, h
-
-    def _sample_v(self, h):
-        # returns  P(v=1|h,W,b) and a sample from it
-        probs = old_div(1.,(1. + exp(-self.bv - mult(h, self.w.T))))
-        v = (probs > random(probs.shape)).astype(self.dtype)
-        return probs, v
-
-    def _train(self, v, n_updates=1, epsilon=0.1, decay=0., momentum=0.,
-               update_with_ph=True, verbose=False):
-        """Update the internal structures according to the input data `v`.
-        The training is performed using Contrastive Divergence (CD).
-        
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param n_updates: Number of CD iterations. Default value: 1
-        :type n_updates: int
-
-        :param epsilon: Learning rate. Default value: 0.1
-        :type epsilon: float
-
-        :param decay: Weight decay term. Default value: 0.
-        :type decay: float
-
-        :param momentum: Momentum term. Default value: 0.
-        :type momentum: float
-
-        :param update_with_ph: In his code, G.Hinton updates the hidden biases
-            using the probability of the hidden unit activations instead of a
-            sample from it. This is in order to speed up sequential
-            learning of RBMs. Set this to False to use the samples instead.
-            Default value: True
-        :type update_with_ph: bool
-
-        :param verbose: Controls whether information about the energy and
-            training error is printed.
-        :type verbose: bool
-        """
-        if not self._initialized:
-            self._init_weights()
-
-        # useful quantities
-        n = v.shape[0]
-        w, bv, bh = self.w, self.bv, self.bh
-
-        # old gradients for momentum term
-        dw, dbv, dbh = self._delta
-
-        # first update of the hidden units for the data term
-        ph_data, h_data = self._sample_h(v)
-        # n updates of both v and h for the model term
-        h_model = h_data.copy()
-        for i in range(n_updates):
-            pv_model, v_model = self._sample_v(h_model)
-            ph_model, h_model = self._sample_h(v_model)
-
-        # update w
-        data_term = mult(v.T, ph_data)
-        model_term = mult(v_model.T, ph_model)
-        dw = momentum*dw + epsilon*(old_div((data_term - model_term),n) - decay*w)
-        w += dw
-
-        # update bv
-        data_term = v.sum(axis=0)
-        model_term = v_model.sum(axis=0)
-        dbv = momentum*dbv + epsilon*(old_div((data_term - model_term),n))
-        bv += dbv
-
-        # update bh
-        if update_with_ph:
-            data_term = ph_data.sum(axis=0)
-            model_term = ph_model.sum(axis=0)
-        else:
-            data_term = h_data.sum(axis=0)
-            model_term = h_model.sum(axis=0)
-        dbh = momentum*dbh + epsilon*(old_div((data_term - model_term),n))
-        bh += dbh
-
-        self._delta = (dw, dbv, dbh)
-        self._train_err = float(((v-v_model)**2.).sum())
-
-        if verbose:
-            print('training error', old_div(self._train_err,v.shape[0]))
-            ph, h = self._sample_h(v)
-            print('energy', self._energy(v, ph).sum())
-
-    def _stop_training(self):
-        #del self._delta
-        #del self._train_err
-        pass
-
-    # execution methods
-
-    @staticmethod
-    def is_invertible():
-        return False
-
-    def _pre_inversion_checks(self, y):
-        self._if_training_stop_training()
-        # control the dimension of y
-        self._check_output(y)
-
-    def sample_h(self, v):
-        """Sample the hidden variables given observations v.
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :returns: A tuple ``(prob_h, h)``, where ``prob_h[n,i]`` is the
-            probability that variable ``i`` is one given the observations
-            ``v[n,:]``, and ``h[n,i]`` is a sample from the posterior probability.
-        :rtype: tuple
-        """
-        self._pre_execution_checks(v)
-        return self._sample_h(v)
-
-    def sample_v(self, h):
-        """Sample the observed variables given hidden variable state h.
-
-        :param h: The hidden variable state h.
-        :type h: numpy.ndarray
-
-        :returns: A tuple ``(prob_v, v)``, where ``prob_v[n,i]`` is the
-            probability that variable ``i`` is one given the hidden
-            variables ``h[n,:]``, and ``v[n,i]`` is a sample from that
-            conditional probability.
-        :rtype: tuple
-        """
-        self._pre_inversion_checks(h)
-        return self._sample_v(h)
-
-    def _energy(self, v, h):
-        return (-mult(v, self.bv) - mult(h, self.bh) -
-                (mult(v, self.w)*h).sum(axis=1))
-
-    def energy(self, v, h):
-        """Compute the energy of the RBM given observed variables state `v` and
-        hidden variables state `h`.
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param h: The hidden variable state h.
-        :type h: numpy.ndarray
-
-        :return: The energy of the RBM given observed and the hidden variables.
-        :rtype: float
-        """
-        return self._energy(v, h)
-
-    def _execute(self, v, return_probs=True):
-        """If `return_probs` is True, returns the probability of the
-        hidden variables h[n,i] being 1 given the observations v[n,:].
-        If `return_probs` is False, return a sample from that probability.
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param return_probs: Controls the return value. Default value: True
-        :type return_probs: bool
-
-        :return: The probability of the hidden variables being 1 given the
-            observations or a sample from that probability.
-        :rtype: float
-        """
-        probs, h = self._sample_h(v)
-        if return_probs:
-            return probs
-        else:
-            return h
-
-class RBMWithLabelsNode(RBMNode):
-    """Restricted Boltzmann Machine with softmax labels. An RBM is an
-    undirected probabilistic network with binary variables. In this
-    case, the node is partitioned into a set of observed (*visible*)
-    variables, a set of hidden (*latent*) variables, and a set of
-    label variables (also observed), only one of which is active at
-    any time. The node is able to learn associations between the
-    visible variables and the labels.
-    By default, the ``execute`` method returns the *probability* of
-    one of the hiden variables being equal to 1 given the input.
-    Use the ``sample_v`` method to sample from the observed variables
-    (visible and labels) given a setting of the hidden variables, and
-    ``sample_h`` to do the opposite. The ``energy`` method can be used
-    to compute the energy of a given setting of all variables.
-
-    |
-
-    .. admonition:: Reference
-
-        The network is trained by Contrastive Divergence, as described in
-        Hinton, G. E. (2002). Training products of experts by minimizing
-        contrastive divergence. Neural Computation, 14(8):1711-1800
-
-        For more information on RBMs with labels, see:
-    
-        * Geoffrey E. Hinton (2007) Boltzmann machine. Scholarpedia, 2(5):1668.
-        * Hinton, G. E, Osindero, S., and Teh, Y. W. (2006). A fast learning
-          algorithm for deep belief nets. Neural Computation, 18:1527-1554.
-
-
-    :ivar w: Generative weights between hidden and observed variables.
-
-    :ivar bv: Bias vector of the observed variables.
-
-    :ivar bh: Bias vector of the hidden variables.
-    """
-
-    def __init__(self, hidden_dim, labels_dim, visible_dim=None, dtype=None):
-        """Initializes an object of type 'RBMWithLabelsNode'.
-
-        :param hidden_dim: Number of hidden variables.
-        :type hidden_dim: int
-
-        :param labels_dim: Number of labels.
-        :type labels_dim: int
-
-        :param visible_dim: Number of observed variables.
-            Default is None.
-        :type visible_dim: int
-
-        :param dtype: Datatype of the input.
-            Default is None.
-        :type dtype: numpy.dtype, str
-        """
-        super(RBMWithLabelsNode, self).__init__(None, None, dtype)
-
-        self._labels_dim = labels_dim
-        if visible_dim is not None:
-            self.input_dim = visible_dim+labels_dim
-
-        self.output_dim = hidden_dim
-        self._initialized = False
-
-    def _set_input_dim(self, n):
-        self._input_dim = n
-        self._visible_dim = n - self._labels_dim
-
-    def _sample_v(self, h, sample_l=False, concatenate=True):
-        # returns  P(v=1|h,W,b), a sample from it, P(l=1|h,W,b),
-        # and a sample from it
-
-        ldim, vdim = self._labels_dim, self._visible_dim
-
-        # activation
-        a = self.bv + mult(h, self.w.T)
-        av, al = a[:, :vdim], a[:, vdim:]
-
-        # ## visible units: logistic activation
-        probs_v = old_div(1.,(1. + exp(-av)))
-        v = (probs_v > random(probs_v.shape)).astype('d')
-
-        # ## label units: softmax activation
-        # subtract maximum to regularize exponent
-        exponent = al - rrep(al.max(axis=1), ldim)
-        probs_l = exp(exponent)
-        probs_l /= rrep(probs_l.sum(axis=1), ldim)
-
-        if sample_l:
-            # ?? todo: I'm sure this can be optimized
-            l = numx.zeros((h.shape[0], ldim))
-            for t in range(h.shape[0]):
-                l[t, :] = mdp.numx_rand.multinomial(1, probs_l[t, :])
-        else:
-            l = probs_l.copy()
-
-        if concatenate:
-            probs = numx.concatenate((probs_v, probs_l), axis=1)
-            x = numx.concatenate((v, l), axis=1)
-            return probs, x
-        else:
-            return probs_v, probs_l, v, l
-
-    # execution methods
-
-    def sample_h(self, v, l):
-        """Sample the hidden variables given observations v and labels `l`.
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param l: The labels. A binary matrix having different variables on
-            different columns and observations on the rows.
-            Only one value per row should be 1.
-        :type l: numpy.ndarray
-
-        :returns: A tuple ``(prob_h, h)``, where ``prob_h[n,i]`` is the
-            probability that variable ``i`` is one given the observations
-            ``v[n,:]`` and the labels ``l[n,:]``, and ``h[n,i]`` is a sample
-            from the posterior probability.
-        :rtype: tuple
-        """
-
-        x = numx.concatenate((v, l), axis=1)
-        self._pre_execution_checks(x)
-        return self._sample_h(x)
-
-    def sample_v(self, h):
-        """Sample the observed variables given hidden variable state `h`.
-
-        :param h: The hidden variable state h.
-        :type h: numpy.ndarray
-
-        :returns: A tuple ``(prob_v, probs_l, v, l)``, where ``prob_v[n,i]``
-          is the probability that the visible variable ``i`` is one given
-          the hidden variables ``h[n,:]``, and ``v[n,i]`` is a sample from
-          that conditional probability. ``prob_l`` and ``l`` have similar
-          interpretations for the label variables. Note that the labels are
-          activated using a softmax function, so that only one label can be
-          active at any time.
-        :rtype: tuple
-        """
-        self._pre_inversion_checks(h)
-
-        probs_v, probs_l, v, l = self._sample_v(h, sample_l=True,
-                                                concatenate=False)
-        return probs_v, probs_l, v, l
-
-    def energy(self, v, h, l):
-        """Compute the energy of the RBM given observed variables state `v`
-        and `l`, and hidden variables state `h`.
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param l: The labels. A binary matrix having different variables on
-            different columns and observations on the rows.
-            Only one value per row should be 1.
-        :type l: numpy.ndarray
-
-        :param h: The hidden variable state h.
-        :type h: numpy.ndarray
-
-        :return: The energy of the RBM given observed and the hidden variables.
-        :rtype: float
-        """
-
-        x = numx.concatenate((v, l), axis=1)
-        return self._energy(x, h)
-
-    def execute(self, v, l, return_probs = True):
-        """If `return_probs` is True, returns the probability of the
-        hidden variables h[n,i] being 1 given the observations v[n,:]
-        and l[n,:].
-
-        If `return_probs` is False, return a sample from that probability.
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param l: The labels. A binary matrix having different variables on
-            different columns and observations on the rows.
-            Only one value per row should be 1.
-        :type l: numpy.ndarray
-
-        :param return_probs: Controls the return value. Default value: True
-        :type return_probs: bool
-
-        :return: The probability of the hidden variables being 1 given the
-            observations and labels or a sample from that probability.
-        :rtype: float
-        """
-        x = numx.concatenate((v, l), axis=1)
-        self._pre_execution_checks(x)
-
-        probs, h = self._sample_h(self._refcast(x))
-        if return_probs:
-            return probs
-        else:
-            return h
-
-    @staticmethod
-    def is_invertible():
-        return False
-
-    def train(self, v, l, n_updates=1, epsilon=0.1, decay=0., momentum=0.,
-              verbose=False):
-        """Update the internal structures according to the visible data `v`
-        and the labels `l`.
-        The training is performed using Contrastive Divergence (CD).
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param l: A binary matrix having different variables on different
-            columns and observations on the rows. Only one value per row should
-            be 1.
-        :type l: numpy.ndarray
-
-        :param n_updates: Number of CD iterations. Default value: 1
-        :type n_updates: int
-
-        :param epsilon: Learning rate. Default value: 0.1
-        :type epsilon: float
-
-        :param decay: Weight decay term. Default value: 0.
-        :type decay: float
-
-        :param momentum: Momentum term. Default value: 0.
-        :type momentum: float
-
-        :param verbose: Controls the verbosity.
-        :type verbose: bool
-        """
-
-        if not self.is_training():
-            errstr = "The training phase has already finished."
-            raise mdp.TrainingFinishedException(errstr)
-
-        x = numx.concatenate((v, l), axis=1)
-        self._check_input(x)
-
-        self._train_phase_started = True
-        self._train_seq[self._train_phase][0](self._refcast(x),
-                                              n_updates=n_updates,
-                                              epsilon=epsilon,
-                                              decay=decay,
-                                              momentum=momentum,
+from __future__ import print_function
+from __future__ import division
+from builtins import range
+from past.utils import old_div
+__docformat__ = "restructuredtext en"
+
+import mdp
+from mdp import numx
+from mdp.utils import mult
+
+random = mdp.numx_rand.random
+randn = mdp.numx_rand.randn
+exp = mdp.numx.exp
+
+# TODO: does it make sense to define the inverse of RBMNode as sampling
+#    from the visible layer given an hidden state?
+
+# this and the other replication functions should go in mdp.utils
+def rrep(x, n):
+    """Replicate x n-times on a new last dimension.
+
+    :param x: The object to replicate.
+    :type x: numpy.ndarray
+
+    :param n: Number of replicas.
+    :type n: int
+    """
+    shp = x.shape + (1,)
+    return x.reshape(shp).repeat(n, axis=-1)
+
+
+class RBMNode(mdp.Node):
+    """Restricted Boltzmann Machine node. An RBM is an undirected
+    probabilistic network with binary variables. The graph is
+    bipartite into observed (*visible*) and hidden (*latent*) variables.
+    By default, the ``execute`` method returns the *probability* of
+    one of the hiden variables being equal to 1 given the input.
+    Use the ``sample_v`` method to sample from the observed variables
+    given a setting of the hidden variables, and ``sample_h`` to do the
+    opposite. The ``energy`` method can be used to compute the energy
+    of a given setting of all variables.
+
+    |
+
+    .. admonition:: Reference
+
+        For more information on RBMs, see
+        Geoffrey E. Hinton (2007) Boltzmann machine. Scholarpedia, 2(5):1668
+
+        The network is trained by Contrastive Divergence, as described in
+        Hinton, G. E. (2002). Training products of experts by minimizing
+        contrastive divergence. Neural Computation, 14(8):1711-1800
+
+    :ivar w: Generative weights between hidden and observed variables.
+
+    :ivar bv: Bias vector of the observed variables.
+
+    :ivar bh: Bias vector of the hidden variables.
+    """
+
+    def __init__(self, hidden_dim, visible_dim = None, dtype = None):
+        """Initializes an object of type 'RBMNode'.
+
+        :param hidden_dim: Number of hidden variables.
+        :type hidden_dim: int
+
+        :param visible_dim: Number of observed variables.
+            Default is None.
+        :type visible_dim: int
+
+        :param dtype: Datatype of the input.
+            Default is None.
+        :type dtype: numpy.dtype, str
+        """
+        super(RBMNode, self).__init__(visible_dim, hidden_dim, dtype)
+        self._initialized = False
+
+    def _init_weights(self):
+        # weights and biases are initialized to small random values to
+        # break the simmetry that might lead to degenerate solutions during
+        # learning
+        self._initialized = True
+
+        # weights
+        self.w = self._refcast(randn(self.input_dim, self.output_dim)*0.1)
+        # bias on the visibile (input) units
+        self.bv = self._refcast(randn(self.input_dim)*0.1)
+        # bias on the hidden (output) units
+        self.bh = self._refcast(randn(self.output_dim)*0.1)
+
+        # delta w, bv, bh used for momentum term
+        self._delta = (0., 0., 0.)
+
+    def _sample_h(self, v):
+        # returns P(h=1|v,W,b) and a sample from it
+        probs = old_div(1.,(1. + exp(-self.bh - mult(v, self.w))))
+        h = (probs > random(probs.shape)).astype(self.dtype)
+        return probs, h
+
+    def _sample_v(self, h):
+        # returns  P(v=1|h,W,b) and a sample from it
+        probs = old_div(1.,(1. + exp(-self.bv - mult(h, self.w.T))))
+        v = (probs > random(probs.shape)).astype(self.dtype)
+        return probs, v
+
+    def _train(self, v, n_updates=1, epsilon=0.1, decay=0., momentum=0.,
+               update_with_ph=True, verbose=False):
+        """Update the internal structures according to the input data `v`.
+        The training is performed using Contrastive Divergence (CD).
+        
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param n_updates: Number of CD iterations. Default value: 1
+        :type n_updates: int
+
+        :param epsilon: Learning rate. Default value: 0.1
+        :type epsilon: float
+
+        :param decay: Weight decay term. Default value: 0.
+        :type decay: float
+
+        :param momentum: Momentum term. Default value: 0.
+        :type momentum: float
+
+        :param update_with_ph: In his code, G.Hinton updates the hidden biases
+            using the probability of the hidden unit activations instead of a
+            sample from it. This is in order to speed up sequential
+            learning of RBMs. Set this to False to use the samples instead.
+            Default value: True
+        :type update_with_ph: bool
+
+        :param verbose: Controls whether information about the energy and
+            training error is printed.
+        :type verbose: bool
+        """
+        if not self._initialized:
+            self._init_weights()
+
+        # useful quantities
+        n = v.shape[0]
+        w, bv, bh = self.w, self.bv, self.bh
+
+        # old gradients for momentum term
+        dw, dbv, dbh = self._delta
+
+        # first update of the hidden units for the data term
+        ph_data, h_data = self._sample_h(v)
+        # n updates of both v and h for the model term
+        h_model = h_data.copy()
+        for i in range(n_updates):
+            pv_model, v_model = self._sample_v(h_model)
+            ph_model, h_model = self._sample_h(v_model)
+
+        # update w
+        data_term = mult(v.T, ph_data)
+        model_term = mult(v_model.T, ph_model)
+        dw = momentum*dw + epsilon*(old_div((data_term - model_term),n) - decay*w)
+        w += dw
+
+        # update bv
+        data_term = v.sum(axis=0)
+        model_term = v_model.sum(axis=0)
+        dbv = momentum*dbv + epsilon*(old_div((data_term - model_term),n))
+        bv += dbv
+
+        # update bh
+        if update_with_ph:
+            data_term = ph_data.sum(axis=0)
+            model_term = ph_model.sum(axis=0)
+        else:
+            data_term = h_data.sum(axis=0)
+            model_term = h_model.sum(axis=0)
+        dbh = momentum*dbh + epsilon*(old_div((data_term - model_term),n))
+        bh += dbh
+
+        self._delta = (dw, dbv, dbh)
+        self._train_err = float(((v-v_model)**2.).sum())
+
+        if verbose:
+            print('training error', old_div(self._train_err,v.shape[0]))
+            ph, h = self._sample_h(v)
+            print('energy', self._energy(v, ph).sum())
+
+    def _stop_training(self):
+        #del self._delta
+        #del self._train_err
+        pass
+
+    # execution methods
+
+    @staticmethod
+    def is_invertible():
+        return False
+
+    def _pre_sampling_checks(self, y):
+        self._if_training_stop_training()
+        # control the dimension of y
+        self._check_output(y)
+
+    def sample_h(self, v):
+        """Sample the hidden variables given observations v.
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :returns: A tuple ``(prob_h, h)``, where ``prob_h[n,i]`` is the
+            probability that variable ``i`` is one given the observations
+            ``v[n,:]``, and ``h[n,i]`` is a sample from the posterior probability.
+        :rtype: tuple
+        """
+        self._pre_execution_checks(v)
+        return self._sample_h(v)
+
+    def sample_v(self, h):
+        """Sample the observed variables given hidden variable state h.
+
+        :param h: The hidden variable state h.
+        :type h: numpy.ndarray
+
+        :returns: A tuple ``(prob_v, v)``, where ``prob_v[n,i]`` is the
+            probability that variable ``i`` is one given the hidden
+            variables ``h[n,:]``, and ``v[n,i]`` is a sample from that
+            conditional probability.
+        :rtype: tuple
+        """
+        self._pre_sampling_checks(h)
+        return self._sample_v(h)
+
+    def _energy(self, v, h):
+        return (-mult(v, self.bv) - mult(h, self.bh) -
+                (mult(v, self.w)*h).sum(axis=1))
+
+    def energy(self, v, h):
+        """Compute the energy of the RBM given observed variables state `v` and
+        hidden variables state `h`.
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param h: The hidden variable state h.
+        :type h: numpy.ndarray
+
+        :return: The energy of the RBM given observed and the hidden variables.
+        :rtype: float
+        """
+        return self._energy(v, h)
+
+    def _execute(self, v, return_probs=True):
+        """If `return_probs` is True, returns the probability of the
+        hidden variables h[n,i] being 1 given the observations v[n,:].
+        If `return_probs` is False, return a sample from that probability.
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param return_probs: Controls the return value. Default value: True
+        :type return_probs: bool
+
+        :return: The probability of the hidden variables being 1 given the
+            observations or a sample from that probability.
+        :rtype: float
+        """
+        probs, h = self._sample_h(v)
+        if return_probs:
+            return probs
+        else:
+            return h
+
+class RBMWithLabelsNode(RBMNode):
+    """Restricted Boltzmann Machine with softmax labels. An RBM is an
+    undirected probabilistic network with binary variables. In this
+    case, the node is partitioned into a set of observed (*visible*)
+    variables, a set of hidden (*latent*) variables, and a set of
+    label variables (also observed), only one of which is active at
+    any time. The node is able to learn associations between the
+    visible variables and the labels.
+    By default, the ``execute`` method returns the *probability* of
+    one of the hiden variables being equal to 1 given the input.
+    Use the ``sample_v`` method to sample from the observed variables
+    (visible and labels) given a setting of the hidden variables, and
+    ``sample_h`` to do the opposite. The ``energy`` method can be used
+    to compute the energy of a given setting of all variables.
+
+    |
+
+    .. admonition:: Reference
+
+        The network is trained by Contrastive Divergence, as described in
+        Hinton, G. E. (2002). Training products of experts by minimizing
+        contrastive divergence. Neural Computation, 14(8):1711-1800
+
+        For more information on RBMs with labels, see:
+    
+        * Geoffrey E. Hinton (2007) Boltzmann machine. Scholarpedia, 2(5):1668.
+        * Hinton, G. E, Osindero, S., and Teh, Y. W. (2006). A fast learning
+          algorithm for deep belief nets. Neural Computation, 18:1527-1554.
+
+
+    :ivar w: Generative weights between hidden and observed variables.
+
+    :ivar bv: Bias vector of the observed variables.
+
+    :ivar bh: Bias vector of the hidden variables.
+    """
+
+    def __init__(self, hidden_dim, labels_dim, visible_dim=None, dtype=None):
+        """Initializes an object of type 'RBMWithLabelsNode'.
+
+        :param hidden_dim: Number of hidden variables.
+        :type hidden_dim: int
+
+        :param labels_dim: Number of labels.
+        :type labels_dim: int
+
+        :param visible_dim: Number of observed variables.
+            Default is None.
+        :type visible_dim: int
+
+        :param dtype: Datatype of the input.
+            Default is None.
+        :type dtype: numpy.dtype, str
+        """
+        super(RBMWithLabelsNode, self).__init__(None, None, dtype)
+
+        self._labels_dim = labels_dim
+        if visible_dim is not None:
+            self.input_dim = visible_dim+labels_dim
+
+        self.output_dim = hidden_dim
+        self._initialized = False
+
+    def _set_input_dim(self, n):
+        self._input_dim = n
+        self._visible_dim = n - self._labels_dim
+
+    def _sample_v(self, h, sample_l=False, concatenate=True):
+        # returns  P(v=1|h,W,b), a sample from it, P(l=1|h,W,b),
+        # and a sample from it
+
+        ldim, vdim = self._labels_dim, self._visible_dim
+
+        # activation
+        a = self.bv + mult(h, self.w.T)
+        av, al = a[:, :vdim], a[:, vdim:]
+
+        # ## visible units: logistic activation
+        probs_v = old_div(1.,(1. + exp(-av)))
+        v = (probs_v > random(probs_v.shape)).astype('d')
+
+        # ## label units: softmax activation
+        # subtract maximum to regularize exponent
+        exponent = al - rrep(al.max(axis=1), ldim)
+        probs_l = exp(exponent)
+        probs_l /= rrep(probs_l.sum(axis=1), ldim)
+
+        if sample_l:
+            # ?? todo: I'm sure this can be optimized
+            l = numx.zeros((h.shape[0], ldim))
+            for t in range(h.shape[0]):
+                l[t, :] = mdp.numx_rand.multinomial(1, probs_l[t, :])
+        else:
+            l = probs_l.copy()
+
+        if concatenate:
+            probs = numx.concatenate((probs_v, probs_l), axis=1)
+            x = numx.concatenate((v, l), axis=1)
+            return probs, x
+        else:
+            return probs_v, probs_l, v, l
+
+    # execution methods
+
+    def sample_h(self, v, l):
+        """Sample the hidden variables given observations v and labels `l`.
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param l: The labels. A binary matrix having different variables on
+            different columns and observations on the rows.
+            Only one value per row should be 1.
+        :type l: numpy.ndarray
+
+        :returns: A tuple ``(prob_h, h)``, where ``prob_h[n,i]`` is the
+            probability that variable ``i`` is one given the observations
+            ``v[n,:]`` and the labels ``l[n,:]``, and ``h[n,i]`` is a sample
+            from the posterior probability.
+        :rtype: tuple
+        """
+
+        x = numx.concatenate((v, l), axis=1)
+        self._pre_execution_checks(x)
+        return self._sample_h(x)
+
+    def sample_v(self, h):
+        """Sample the observed variables given hidden variable state `h`.
+
+        :param h: The hidden variable state h.
+        :type h: numpy.ndarray
+
+        :returns: A tuple ``(prob_v, probs_l, v, l)``, where ``prob_v[n,i]``
+          is the probability that the visible variable ``i`` is one given
+          the hidden variables ``h[n,:]``, and ``v[n,i]`` is a sample from
+          that conditional probability. ``prob_l`` and ``l`` have similar
+          interpretations for the label variables. Note that the labels are
+          activated using a softmax function, so that only one label can be
+          active at any time.
+        :rtype: tuple
+        """
+        self._pre_sampling_checks(h)
+
+        probs_v, probs_l, v, l = self._sample_v(h, sample_l=True,
+                                                concatenate=False)
+        return probs_v, probs_l, v, l
+
+    def energy(self, v, h, l):
+        """Compute the energy of the RBM given observed variables state `v`
+        and `l`, and hidden variables state `h`.
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param l: The labels. A binary matrix having different variables on
+            different columns and observations on the rows.
+            Only one value per row should be 1.
+        :type l: numpy.ndarray
+
+        :param h: The hidden variable state h.
+        :type h: numpy.ndarray
+
+        :return: The energy of the RBM given observed and the hidden variables.
+        :rtype: float
+        """
+
+        x = numx.concatenate((v, l), axis=1)
+        return self._energy(x, h)
+
+    def execute(self, v, l, return_probs = True):
+        """If `return_probs` is True, returns the probability of the
+        hidden variables h[n,i] being 1 given the observations v[n,:]
+        and l[n,:].
+
+        If `return_probs` is False, return a sample from that probability.
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param l: The labels. A binary matrix having different variables on
+            different columns and observations on the rows.
+            Only one value per row should be 1.
+        :type l: numpy.ndarray
+
+        :param return_probs: Controls the return value. Default value: True
+        :type return_probs: bool
+
+        :return: The probability of the hidden variables being 1 given the
+            observations and labels or a sample from that probability.
+        :rtype: float
+        """
+        x = numx.concatenate((v, l), axis=1)
+        self._pre_execution_checks(x)
+
+        probs, h = self._sample_h(self._refcast(x))
+        if return_probs:
+            return probs
+        else:
+            return h
+
+    @staticmethod
+    def is_invertible():
+        return False
+
+    def train(self, v, l, n_updates=1, epsilon=0.1, decay=0., momentum=0.,
+              verbose=False):
+        """Update the internal structures according to the visible data `v`
+        and the labels `l`.
+        The training is performed using Contrastive Divergence (CD).
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param l: A binary matrix having different variables on different
+            columns and observations on the rows. Only one value per row should
+            be 1.
+        :type l: numpy.ndarray
+
+        :param n_updates: Number of CD iterations. Default value: 1
+        :type n_updates: int
+
+        :param epsilon: Learning rate. Default value: 0.1
+        :type epsilon: float
+
+        :param decay: Weight decay term. Default value: 0.
+        :type decay: float
+
+        :param momentum: Momentum term. Default value: 0.
+        :type momentum: float
+
+        :param verbose: Controls the verbosity.
+        :type verbose: bool
+        """
+
+        if not self.is_training():
+            errstr = "The training phase has already finished."
+            raise mdp.TrainingFinishedException(errstr)
+
+        x = numx.concatenate((v, l), axis=1)
+        self._check_input(x)
+
+        self._train_phase_started = True
+        self._train_seq[self._train_phase][0](self._refcast(x),
+                                              n_updates=n_updates,
+                                              epsilon=epsilon,
+                                              decay=decay,
+                                              momentum=momentum,
                                               verbose=verbose)
\ No newline at end of file
-- 
2.43.0


From 12e2c64c96bedf5cf14377e5d3492b1cffe46601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 02/76] fix: Flow.train skips a trained node when its data
 iterable is None

None for a node whose training is already finished ended in a wrapped
TypeError ('NoneType' object is not iterable).
---
 mdp/linear_flows.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index b07946d..f2416b3 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -154,8 +154,8 @@ class Flow(object):
             err_str = ("\n! Node %d is training"
                        " but instead of iterable received 'None'." % nodenr)
             raise FlowException(err_str)
-        elif (data_iterable is None) and (not node.is_trainable()):
-            # skip training if node is not trainable
+        elif data_iterable is None:
+            # skip training if node is not trainable or already trained
             return
 
         try:
-- 
2.43.0


From 47b2d3bc14161cdb22f70674b0dbd44f73237d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 03/76] fix: += on a flow checks the nodes before it changes
 the flow

A refused += (wrong dimension or node type) raised but left the refused
nodes in the flow. CircularOnlineFlow + flow appended the flow object
itself instead of its nodes.
---
 mdp/linear_flows.py        |  9 ++++++---
 mdp/linear_flows_online.py | 23 +++++++++++++----------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index f2416b3..bb869e4 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -548,14 +548,17 @@ class Flow(object):
     def __iadd__(self, other):
         # append other to self
         if isinstance(other, Flow):
-            self.flow += other.flow
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.Node):
-            self.flow.append(other)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate flow or node'
                        ' (not \'%s\') to flow' % (type(other).__name__))
             raise TypeError(err_str)
-        self._check_nodes_consistency(self.flow)
+        # check dimension consistency
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = flow_copy
         return self
 
     # public container methods
diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index b8543f0..1e37513 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -305,15 +305,17 @@ class OnlineFlow(mdp.Flow):
     def __iadd__(self, other):
         # append other to self
         if isinstance(other, mdp.Flow):
-            self.flow += other.flow
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.Node):
-            self.flow.append(other)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate flow or node'
                        ' (not \'%s\') to flow' % type(other).__name__)
             raise TypeError(err_str)
-        self._check_compatibility(self.flow)
-        self._check_nodes_consistency(self.flow)
+        self._check_compatibility(flow_copy)
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = flow_copy
         self._train_arg_keys_list, self._train_args_needed_list = self._get_required_train_args_from_flow(self.flow)
         return self
 
@@ -597,8 +599,7 @@ class CircularOnlineFlow(OnlineFlow):
     def __add__(self, other):
         # append other to self
         if isinstance(other, OnlineFlow):
-            flow_copy = list(self.flow)
-            flow_copy.append(other)
+            flow_copy = list(self.flow) + list(other.flow)
             self._check_compatibility(flow_copy)
             self._check_nodes_consistency(flow_copy)
             # if no exception was raised, accept the new sequence
@@ -620,15 +621,17 @@ class CircularOnlineFlow(OnlineFlow):
     def __iadd__(self, other):
         # append other to self
         if isinstance(other, OnlineFlow):
-            self.flow += other.flow
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.OnlineNode):
-            self.flow.append(other)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate OnlineFlow or OnlineNode'
                        ' (not \'%s\') to CircularOnlineFlow' % type(other).__name__)
             raise TypeError(err_str)
-        self._check_compatibility(self.flow)
-        self._check_nodes_consistency(self.flow)
+        self._check_compatibility(flow_copy)
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = _deque(flow_copy)
         return self
 
     # public container methods
-- 
2.43.0


From 9128a76678046a048a71f711fc67f8e1c3ae3877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 04/76] fix: CircularOnlineFlow inversion and node number
 checks

The inversion sliced a deque, which always raised a TypeError, and left
out the output node. The first node number past the flow was accepted.
---
 mdp/linear_flows_online.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 1e37513..0aaa07f 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -539,7 +539,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def _inverse_seq(self, x):
         # Successively invert input data 'x' through all nodes backwards from the output node to the input node.
-        flow = self.flow[:self.output_node_idx]
+        flow = list(self.flow)[:self.output_node_idx + 1]
         for i in range(len(flow) - 1, -1, -1):
             try:
                 x = flow[i].inverse(x)
@@ -549,7 +549,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def set_input_node(self, node_idx):
         """Set the input node of the flow"""
-        if (node_idx > len(self.flow)) or (node_idx < 0):
+        if (node_idx >= len(self.flow)) or (node_idx < 0):
             raise CircularOnlineFlowException(
                 "Accepted 'node_idx' values: 0 <= node_idx < %d, given %d" % (len(self.flow), node_idx))
         self.flow.rotate(-node_idx)
@@ -557,7 +557,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def set_output_node(self, node_idx):
         """Set the output node of the flow"""
-        if (node_idx > len(self.flow)) or (node_idx < 0):
+        if (node_idx >= len(self.flow)) or (node_idx < 0):
             raise CircularOnlineFlowException(
                 "Accepted 'node_idx' values: 0 <= node_idx < %d, given %d" % (len(self.flow), node_idx))
         self.output_node_idx = node_idx
-- 
2.43.0


From eb61165b1930af6ff3fb270ab3a9af2429b12cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 05/76] fix: changing the nodes of a CircularOnlineFlow keeps
 the output node

Replacing or deleting a node by its number raised an AttributeError after
the flow was changed, slices called the int key.stop(), and the output
node number was not adjusted.
---
 mdp/linear_flows_online.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 0aaa07f..8937f51 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -571,12 +571,22 @@ class CircularOnlineFlow(OnlineFlow):
 
     # private container methods
 
+    def _get_output_node(self):
+        return self.flow[self.output_node_idx] if len(self.flow) > 0 else None
+
+    def _keep_output_node(self, node):
+        # Keep the given output node if it is still part of the flow, otherwise use the last node.
+        for idx, flow_node in enumerate(self.flow):
+            if flow_node is node:
+                self.output_node_idx = idx
+                return
+        self.reset_output_node()
+
     def __setitem__(self, key, value):
+        output_node = self._get_output_node()
         super(CircularOnlineFlow, self).__setitem__(key, value)
         self.flow = _deque(self.flow)
-        if (key.start < self.output_node_idx) and (self.output_node_idx < key.stop()):
-            print('Output node is replaced! Resetting the output node.')
-            self.reset_output_node()
+        self._keep_output_node(output_node)
 
     def __getitem__(self, key):
         if isinstance(key, slice):
@@ -588,13 +598,10 @@ class CircularOnlineFlow(OnlineFlow):
             return self.flow[key]
 
     def __delitem__(self, key):
+        output_node = self._get_output_node()
         super(CircularOnlineFlow, self).__delitem__(key)
         self.flow = _deque(self.flow)
-        if (key.start < self.output_node_idx) and (self.output_node_idx < key.stop()):
-            print('Output node deleted! Resetting the output node to the default last node.')
-            self.reset_output_node()
-        elif self.output_node_idx > key.stop():
-            self.set_output_node(self.output_node_idx - key.stop + key.start)
+        self._keep_output_node(output_node)
 
     def __add__(self, other):
         # append other to self
@@ -659,5 +666,3 @@ class CircularOnlineFlow(OnlineFlow):
         self._check_nodes_consistency(self.flow)
         self._check_compatibility(self.flow)
 
-        if self.output_node_idx >= i:
-            self.set_output_node(self.output_node_idx + 1)
-- 
2.43.0


From 801b999c9d8f6fa6da155aacced986ffe9243d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 06/76] fix: OnlineFlow does not close a terminal trainable
 node after the first chunk

---
 mdp/linear_flows_online.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 8937f51..c09aa52 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -137,8 +137,10 @@ class OnlineFlow(mdp.Flow):
                         if node.is_training():
                             node.train(x)
 
-                    # input for the next node
-                    x = node.execute(x)
+                    # input for the next node (executing the last node here
+                    # would end the training of a terminal trainable Node)
+                    if nodenr < len(self.flow) - 1:
+                        x = node.execute(x)
                 except FlowExceptionCR as e:
                     # this exception was already propagated,
                     # probably during the execution  of a node upstream in the flow
-- 
2.43.0


From 35b906d8844abb9fc47e66c3bcb05ddca0c028d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 07/76] fix: OnlineFlow._train_node raises the exception it
 creates

---
 mdp/linear_flows_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index c09aa52..240b885 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -93,7 +93,7 @@ class OnlineFlow(mdp.Flow):
 
     def _train_node(self, data_iterable, nodenr):
         err_str = ('Not used in %s' % str(type(self).__name__))
-        OnlineFlowException(err_str)
+        raise OnlineFlowException(err_str)
 
     def _get_required_train_args_from_flow(self, flow):
         _train_arg_keys_list = [self._get_required_train_args(node) for node in flow]
-- 
2.43.0


From 6f8ff933bfa95933b8f1499ae2bd8ef4c016ecad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 08/76] fix: CircularOnlineFlow.set_stored_input keeps the
 input when the input dimension is not yet set

---
 mdp/linear_flows_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 240b885..55be633 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -426,7 +426,7 @@ class CircularOnlineFlow(OnlineFlow):
             if x.shape[-1] != self.flow[0].input_dim:
                 raise CircularOnlineFlowException(
                     "Dimension mismatch! should be %d, given %d" % (self.flow[0].input_dim, x.shape[-1]))
-            self._stored_input = x
+        self._stored_input = x
 
     def get_stored_input(self):
         """return the current stored input"""
-- 
2.43.0


From cb7a3166e496b97f94149798306f061276e7935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 09/76] fix: Scheduler releases its lock and closes the task
 when a task or result container fails

---
 mdp/parallel/scheduling.py | 41 ++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index db06de5..02a6dca 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -248,6 +248,7 @@ class Scheduler(object):
         self._lock.acquire()
         if task_callable is None:
             if self._last_callable is None:
+                self._lock.release()
                 raise Exception("No task_callable specified and " +
                                 "no previous callable available.")
         self._n_open_tasks += 1
@@ -289,15 +290,15 @@ class Scheduler(object):
 
         This function blocks to avoid any problems during result storage.
         """
-        self._lock.acquire()
-        self.result_container.add_result(result, task_index)
-        if self.verbose:
-            if task_index is not None:
-                print("    finished task no. %d" % task_index)
-            else:
-                print("    task failed")
-        self._n_open_tasks -= 1
-        self._lock.release()
+        with self._lock:
+            # the task is finished, also if the result can not be stored
+            self._n_open_tasks -= 1
+            self.result_container.add_result(result, task_index)
+            if self.verbose:
+                if task_index is not None:
+                    print("    finished task no. %d" % task_index)
+                else:
+                    print("    task failed")
 
     def get_results(self):
         """Get the accumulated results from the result container.
@@ -305,14 +306,10 @@ class Scheduler(object):
         This method blocks if there are open tasks.
         """
         while True:
-            self._lock.acquire()
-            if self._n_open_tasks == 0:
-                results = self.result_container.get_results()
-                self._lock.release()
-                return results
-            else:
-                self._lock.release()
-                time.sleep(1)
+            with self._lock:
+                if self._n_open_tasks == 0:
+                    return self.result_container.get_results()
+            time.sleep(1)
 
     def shutdown(self):
         """Controlled shutdown of the scheduler.
@@ -351,8 +348,14 @@ class Scheduler(object):
         task_callable must not be called. Only a forked version can be called.
         """
         # IMPORTANT: always call fork, since it must be called at least once!
-        task_callable = task_callable.fork()
-        result = task_callable(data)
+        try:
+            task_callable = task_callable.fork()
+            result = task_callable(data)
+        except BaseException:
+            # the exception is passed on to the caller of add_task
+            self._n_open_tasks -= 1
+            self._lock.release()
+            raise
         # release lock before store_result
         self._lock.release()
         self._store_result(result, task_index)
-- 
2.43.0


From f7fce8d8d22db446717653964d338cb855bfb75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 10/76] fix: Scheduler.set_task_callable wraps functions like
 add_task does

---
 mdp/parallel/scheduling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index 02a6dca..32036eb 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -276,6 +276,9 @@ class Scheduler(object):
             is given.
         """
         self._lock.acquire()
+        if task_callable is not None and not hasattr(task_callable, "fork"):
+            # not a TaskCallable (probably a function), so wrap it
+            task_callable = TaskCallableWrapper(task_callable)
         self._last_callable = task_callable
         # set _last_callable_index to half value since the callable is newer
         # than the last task, but not newer than the next incoming task
-- 
2.43.0


From faf7baec6977674181fd2927b4fee8d9f587ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:10 +0000
Subject: [PATCH 11/76] fix: OrderedResultContainer without results returns an
 empty list

---
 mdp/parallel/scheduling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index 32036eb..53355fc 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -73,7 +73,7 @@ class OrderedResultContainer(ListResultContainer):
         results = self._results
         self._results = []
         results.sort(key=lambda x: x[1])
-        return list(zip(*results))[0]
+        return [result for result, _ in results]
 
 
 class TaskCallable(object):
-- 
2.43.0


From 1d347348f3ee3056f39cbde6dc004e3ac919669a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 12/76] fix: Scheduler.get_results reports failed tasks

---
 mdp/parallel/scheduling.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index 53355fc..e8c0d5b 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -211,6 +211,7 @@ class Scheduler(object):
         self.result_container = result_container
         self.verbose = verbose
         self._n_open_tasks = 0  # number of tasks that are currently running
+        self._n_failed_tasks = 0  # tasks failed since the last get_results
         # count the number of submitted tasks, also used for the task index
         self._task_counter = 0
         self._lock = threading.Lock()
@@ -296,23 +297,45 @@ class Scheduler(object):
         with self._lock:
             # the task is finished, also if the result can not be stored
             self._n_open_tasks -= 1
-            self.result_container.add_result(result, task_index)
+            try:
+                self.result_container.add_result(result, task_index)
+            except Exception:
+                self._n_failed_tasks += 1
+                raise
             if self.verbose:
                 if task_index is not None:
                     print("    finished task no. %d" % task_index)
                 else:
                     print("    task failed")
 
+    def _discard_task(self, failed=False):
+        """Close a task that has no result.
+
+        failed -- If True then the failure is reported by get_results. Use
+            this if no exception reaches the caller of add_task.
+        """
+        with self._lock:
+            self._n_open_tasks -= 1
+            if failed:
+                self._n_failed_tasks += 1
+
     def get_results(self):
         """Get the accumulated results from the result container.
 
-        This method blocks if there are open tasks.
+        This method blocks if there are open tasks. If some of the tasks
+        failed then an exception is raised.
         """
         while True:
             with self._lock:
                 if self._n_open_tasks == 0:
-                    return self.result_container.get_results()
+                    n_failed = self._n_failed_tasks
+                    self._n_failed_tasks = 0
+                    results = self.result_container.get_results()
+                    break
             time.sleep(1)
+        if n_failed:
+            raise Exception("%d scheduler task(s) failed." % n_failed)
+        return results
 
     def shutdown(self):
         """Controlled shutdown of the scheduler.
-- 
2.43.0


From f9ddbc96a11e85d7cae10331b9b47dc0f50c099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 13/76] fix: ThreadScheduler limits the number of threads and
 closes failed tasks

---
 mdp/parallel/thread_schedule.py | 74 ++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 28 deletions(-)

diff --git a/mdp/parallel/thread_schedule.py b/mdp/parallel/thread_schedule.py
index 09a4d11..b8df72a 100644
--- a/mdp/parallel/thread_schedule.py
+++ b/mdp/parallel/thread_schedule.py
@@ -52,36 +52,54 @@ class ThreadScheduler(Scheduler):
         It blocks when the maximum number of threads is reached (given by
         n_threads) or when the system is not able to start a new thread.
         """
+        while self._n_active_threads >= self._n_threads:
+            # release lock for other threads and wait
+            self._lock.release()
+            time.sleep(SLEEP_TIME)
+            self._lock.acquire()
+        self._n_active_threads += 1
+        self._lock.release()
+        try:
+            task_callable = task_callable.fork()
+            if self.copy_callable:
+                # create a deep copy of the task_callable,
+                # since it might not be thread safe
+                # (but the fork is still required)
+                as_str = pickle.dumps(task_callable, -1)
+                task_callable = pickle.loads(as_str)
+        except BaseException:
+            # the exception is passed on to the caller of add_task
+            self._free_thread()
+            self._discard_task()
+            raise
         task_started = False
         while not task_started:
-            if self._n_active_threads >= self._n_threads:
-                # release lock for other threads and wait
-                self._lock.release()
-                time.sleep(SLEEP_TIME)
-                self._lock.acquire()
-            else:
-                self._lock.release()
-                task_callable = task_callable.fork()
-                if self.copy_callable:
-                    # create a deep copy of the task_callable,
-                    # since it might not be thread safe 
-                    # (but the fork is still required)
-                    as_str = pickle.dumps(task_callable, -1)
-                    task_callable = pickle.loads(as_str)
-                try:
-                    thread = threading.Thread(target=self._task_thread,
-                                              args=(data, task_callable,
-                                                    task_index))
-                    thread.start()
-                    task_started = True
-                except Exception:
-                    if self.verbose:
-                        print ("unable to create new thread,"
-                               " waiting 2 seconds...")
-                    time.sleep(2)
+            try:
+                thread = threading.Thread(target=self._task_thread,
+                                          args=(data, task_callable,
+                                                task_index))
+                thread.start()
+                task_started = True
+            except Exception:
+                if self.verbose:
+                    print ("unable to create new thread,"
+                           " waiting 2 seconds...")
+                time.sleep(2)
+
+    def _free_thread(self):
+        """Make room for a new task thread."""
+        with self._lock:
+            self._n_active_threads -= 1
 
     def _task_thread(self, data, task_callable, task_index):
         """Thread function which processes a single task."""
-        result = task_callable(data)
-        self._store_result(result, task_index)
-        self._n_active_threads -= 1
+        try:
+            try:
+                result = task_callable(data)
+            except BaseException:
+                # get_results must not wait for this task
+                self._discard_task(failed=True)
+                raise
+            self._store_result(result, task_index)
+        finally:
+            self._free_thread()
-- 
2.43.0


From 5d445836715e71c1c8569de7e20f069fe5d90d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 14/76] fix: ProcessScheduler closes failed tasks and sends the
 callable of the task

---
 mdp/parallel/process_schedule.py | 71 ++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index cb99cd2..240a68b 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -125,13 +125,16 @@ class ProcessScheduler(Scheduler):
 
         If a process is still running a task then an exception is raised.
         """
-        self._lock.acquire()
-        if len(self._free_processes) < self._n_processes:
-            raise Exception("some slave process is still working")
-        for process in self._free_processes:
-            pickle.dump("EXIT", process.stdin)
-            process.stdin.flush()
-        self._lock.release()
+        with self._lock:
+            if len(self._free_processes) < self._n_processes:
+                raise Exception("some slave process is still working")
+            for process in self._free_processes:
+                try:
+                    pickle.dump("EXIT", process.stdin)
+                    process.stdin.flush()
+                except (OSError, ValueError):
+                    # this process has already ended after a failed task
+                    pass
         if self.verbose:
             print("scheduler shutdown")
 
@@ -141,29 +144,31 @@ class ProcessScheduler(Scheduler):
         It blocks when the system is not able to start a new thread
         or when the processes are all in use.
         """
+        # the callable might be replaced while the task is waiting
+        callable_index = self._last_callable_index
+        while not len(self._free_processes):
+            # release lock for other threads and wait
+            self._lock.release()
+            time.sleep(SLEEP_TIME)
+            self._lock.acquire()
+        process = self._free_processes.pop()
+        self._lock.release()
         task_started = False
         while not task_started:
-            if not len(self._free_processes):
-                # release lock for other threads and wait
-                self._lock.release()
-                time.sleep(SLEEP_TIME)
-                self._lock.acquire()
-            else:
-                try:
-                    process = self._free_processes.pop()
-                    self._lock.release()
-                    thread = threading.Thread(target=self._task_thread,
-                                              args=(process, data,
-                                                    task_callable, task_index))
-                    thread.start()
-                    task_started = True
-                except thread.error:
-                    if self.verbose:
-                        print ("unable to create new task thread,"
-                               " waiting 2 seconds...")
-                    time.sleep(2)
+            try:
+                thread = threading.Thread(target=self._task_thread,
+                                          args=(process, data, task_callable,
+                                                task_index, callable_index))
+                thread.start()
+                task_started = True
+            except Exception:
+                if self.verbose:
+                    print ("unable to create new task thread,"
+                           " waiting 2 seconds...")
+                time.sleep(2)
 
-    def _task_thread(self, process, data, task_callable, task_index):
+    def _task_thread(self, process, data, task_callable, task_index,
+                     callable_index):
         """Thread function which cares for a single task.
 
         The task is pushed to the process via stdin, then we wait for the
@@ -173,8 +178,8 @@ class ProcessScheduler(Scheduler):
         try:
             if self._cache_callable:
                 # check if the cached callable is up to date
-                if process._callable_index < self._last_callable_index:
-                    process._callable_index = self._last_callable_index
+                if process._callable_index != callable_index:
+                    process._callable_index = callable_index
                 else:
                     task_callable = None
             # push the task to the process
@@ -186,10 +191,14 @@ class ProcessScheduler(Scheduler):
         except:
             traceback.print_exc()
             self._free_processes.append(process)
+            # get_results must not wait for this task
+            self._discard_task(failed=True)
             sys.exit("failed to execute task %d in process:" % task_index)
         # store the result and clean up
-        self._store_result(result, task_index)
-        self._free_processes.append(process)
+        try:
+            self._store_result(result, task_index)
+        finally:
+            self._free_processes.append(process)
 
 
 def _process_run(cache_callable=True):
-- 
2.43.0


From 9dadcc5a4a0e75171cbca9930166bc3932e5e8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 15/76] fix: slave processes fork the callable also without
 caching

---
 mdp/parallel/process_schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index 240a68b..64ddca7 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -242,6 +242,7 @@ def _process_run(cache_callable=True):
                     task_callable = task_callable.fork()
                 else:
                     task_callable.setup_environment()
+                    task_callable = task_callable.fork()
                 result = task_callable(data)
                 del task_callable  # free memory
                 pickle.dump(result, pickle_out, protocol=-1)
-- 
2.43.0


From b32648573e281d3288c08d51b4b398edea3df0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 16/76] fix: ExecuteResultContainer does not keep the forked
 nodes of earlier executions

---
 mdp/parallel/parallelflows.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 9eb2e44..fdb05ad 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -207,6 +207,8 @@ class ExecuteResultContainer(OrderedResultContainer):
         excecute_results = super(ExecuteResultContainer, self).get_results()
         flownode_results = ([self._flownode,]
                               + ([None] * (len(excecute_results)-1)))
+        # the container can be reused for another execution
+        self._flownode = None
         return list(zip(excecute_results, flownode_results))
 
 ### ParallelFlow Class ###
-- 
2.43.0


From 6af43bbc7eb6d64829acb988b2544c69b5ff4462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 17/76] fix: ParallelFlow can be used again after a failed
 training and accepts schedulers for trained flows

---
 mdp/parallel/parallelflows.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index fdb05ad..d845213 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -326,19 +326,19 @@ class ParallelFlow(mdp.Flow):
                     # self._i_train_node was set in setup_parallel_training
                     schedulers = iter(scheduler)
                     scheduler = next(schedulers)
-                    if self._i_train_node > 0:
-                        # dispose schedulers for pretrained nodes
-                        for _ in range(self._i_train_node):
-                            if scheduler is not None:
-                                scheduler.shutdown()
-                            scheduler = next(schedulers)
-                    elif self._i_train_node is None:
+                    if self._i_train_node is None:
                         # all nodes are already trained, dispose schedulers
                         for _ in range(len(self.flow) - 1):
                             if scheduler is not None:
                                 scheduler.shutdown()
                             # the last scheduler will be shutdown in finally
                             scheduler = next(schedulers)
+                    elif self._i_train_node > 0:
+                        # dispose schedulers for pretrained nodes
+                        for _ in range(self._i_train_node):
+                            if scheduler is not None:
+                                scheduler.shutdown()
+                            scheduler = next(schedulers)
                     last_trained_node = self._i_train_node
                 else:
                     schedulers = None
@@ -380,6 +380,9 @@ class ParallelFlow(mdp.Flow):
                 # reset iterable references, which cannot be pickled
                 self._train_data_iterables = None
                 self._train_data_iterator = None
+                # after an error the training is no longer underway
+                self._i_train_node = None
+                self._next_task = None
                 if (schedulers is not None) and (scheduler is not None):
                     scheduler.shutdown()
 
@@ -585,6 +588,7 @@ class ParallelFlow(mdp.Flow):
         finally:
             # reset remaining iterator references, which cannot be pickled
             self._exec_data_iterator = None
+            self._next_task = None
         return result
 
     def setup_parallel_execution(self, iterable, nodenr=None,
-- 
2.43.0


From 5b6dae92e79670d8927cba0c48f520ff38d3035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 18/76] fix: ParallelCheckpointFlow can be trained without a
 scheduler

---
 mdp/parallel/parallelflows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index d845213..ac908fd 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -731,7 +731,7 @@ class ParallelCheckpointFlow(ParallelFlow, mdp.CheckpointFlow):
                                                      **kwargs)
 
     def train(self, data_iterables, checkpoints, scheduler=None,
-              train_callable_class=FlowTrainCallable,
+              train_callable_class=None,
               overwrite_result_container=True,
               **kwargs):
         """Train all trainable nodes in the flow.
-- 
2.43.0


From 8f05b504765de2b447db0c223c6c58e85824ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 19/76] fix: ParallelBiFlow can be used again after a failed
 training and accepts several schedulers

---
 bimdp/parallel/parallelbiflow.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index fceac56..766bc66 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -185,19 +185,19 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                     # self._i_train_node was set in setup_parallel_training
                     schedulers = iter(scheduler)
                     scheduler = next(schedulers)
-                    if self._i_train_node > 0:
-                        # dispose schedulers for pretrained nodes
-                        for _ in range(self._i_train_node):
-                            if scheduler is not None:
-                                scheduler.shutdown()
-                            scheduler = next(schedulers)
-                    elif self._i_train_node is None:
+                    if self._i_train_node is None:
                         # all nodes are already trained, dispose schedulers
                         for _ in range(len(self.flow) - 1):
                             if scheduler is not None:
                                 scheduler.shutdown()
                             # the last scheduler will be shutdown in finally
                             scheduler = next(schedulers)
+                    elif self._i_train_node > 0:
+                        # dispose schedulers for pretrained nodes
+                        for _ in range(self._i_train_node):
+                            if scheduler is not None:
+                                scheduler.shutdown()
+                            scheduler = next(schedulers)
                     last_trained_node = self._i_train_node
                 else:
                     schedulers = None
@@ -221,6 +221,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                         self.use_results(results)
                     # check if we have to switch to next scheduler
                     if ((schedulers is not None) and
+                        (self._i_train_node is not None) and
                         (self._i_train_node > last_trained_node)):
                         # dispose unused schedulers
                         for _ in range(self._i_train_node - last_trained_node):
@@ -239,6 +240,9 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 # reset remaining iterator references, which cannot be pickled
                 self._train_data_iterator = None
                 self._train_msg_iterator = None
+                # after an error the training is no longer underway
+                self._i_train_node = None
+                self._next_task = None
                 if (schedulers is not None) and (scheduler is not None):
                     scheduler.shutdown()
 
@@ -464,6 +468,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             self._exec_data_iterator = None
             self._exec_msg_iterator = None
             self._exec_target_iterator = None
+            self._next_task = None
         return result
 
     def setup_parallel_execution(self, iterable, msg_iterable=None,
-- 
2.43.0


From 222346b476bb58c1b3922a0389ede58dbbff28da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 20/76] fix: ParallelFlow.execute with a scheduler stops at
 nodenr

---
 mdp/parallel/parallelflows.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index ac908fd..cc176b2 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -628,6 +628,7 @@ class ParallelFlow(mdp.Flow):
         # forked in the scheduler.
         self._next_task = (task_data_chunk,
                            self._execute_callable_class(self._flownode,
+                                                        nodenr=nodenr,
                                                         purge_nodes=True))
 
     def _create_execute_task(self):
-- 
2.43.0


From 339bcef2aab691a2f0bbce27bea5bbb92fb72ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 21/76] fix: deactivating an extension keeps the own methods of
 subclasses

---
 mdp/extension.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 21f765d..7ebea36 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -324,10 +324,13 @@ def activate_extension(extension_name, verbose=False):
                                + "' and newly activated extension '" +
                                extension_name + "'.")
                         raise ExtensionException(err)
-                    # only overwrite the attribute if the extension is not
-                    # yet active on this class or its superclasses
-                    if ext_attr_name not in dir(node_cls):
-                        original_attr = getattr(node_cls, attr_name)
+                    # do not store the attribute of another extension class
+                    # which is inherited from a superclass
+                    if (attr_name in node_cls.__dict__ or
+                        ext_attr_name not in dir(node_cls)):
+                        original_attr = [x.__dict__[attr_name]
+                                         for x in node_cls.__mro__
+                                         if attr_name in x.__dict__][0]
                         if verbose:
                             print ("extension %s: overwriting %s in %s" %
                                 (extension_name, attr_name, node_cls.__name__))
@@ -363,14 +366,14 @@ def deactivate_extension(extension_name, verbose=False):
                     print ("extension %s: restoring %s in %s" %
                            (extension_name, attr_name, node_cls.__name__))
                 delattr(node_cls, attr_name)
-                original_attr = getattr(node_cls, original_name)
+                original_attr = node_cls.__dict__[original_name]
                 # Check if the attribute is defined by one of the super
-                # classes and test if the overwritten method is not that
+                # classes (where it might be overwritten by an extension)
+                # and test if the overwritten method is not that
                 # method, otherwise we would inject unwanted methods.
-                # Note: '==' tests identity for .__func__ and .__self__,
-                #    but .im_class does not matter in Python 2.6.
-                if all([getattr(x, attr_name, None) !=
-                           original_attr for x in node_cls.__mro__[1:]]):
+                if all([x.__dict__.get(attr_name) is not original_attr and
+                        x.__dict__.get(original_name) is not original_attr
+                        for x in node_cls.__mro__[1:]]):
                     setattr(node_cls, attr_name, original_attr)
                 delattr(node_cls, original_name)
             else:
-- 
2.43.0


From e5f3914178920c6f3ce58d1ff09384ba2b7a46e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 22/76] fix: a failed activation does not remove the attributes
 of another extension

---
 mdp/extension.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 7ebea36..01c71b3 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -357,6 +357,11 @@ def deactivate_extension(extension_name, verbose=False):
             continue
         for attr_name in list(attributes.keys()):
             original_name = ORIGINAL_ATTR_PREFIX + attr_name
+            ext_attr_name = _EXTENSION_ATTR_PREFIX + attr_name
+            if node_cls.__dict__.get(ext_attr_name) != extension_name:
+                # the activation failed before this attribute was injected,
+                # it might belong to another extension
+                continue
             if verbose:
                 print ("extension %s: removing %s from %s" %
                        (extension_name, attr_name, node_cls.__name__))
@@ -377,17 +382,9 @@ def deactivate_extension(extension_name, verbose=False):
                     setattr(node_cls, attr_name, original_attr)
                 delattr(node_cls, original_name)
             else:
-                try:
-                    # no original attribute to restore, so simply delete
-                    # might be missing if the activation failed
-                    delattr(node_cls, attr_name)
-                except AttributeError:
-                    pass
-            try:
-                # might be missing if the activation failed
-                delattr(node_cls, _EXTENSION_ATTR_PREFIX + attr_name)
-            except AttributeError:
-                pass
+                # no original attribute to restore, so simply delete
+                delattr(node_cls, attr_name)
+            delattr(node_cls, ext_attr_name)
     if _TEARDOWN_FUNC_ATTR in _extensions[extension_name]:
         _extensions[extension_name][_TEARDOWN_FUNC_ATTR]()
     _active_extensions.remove(extension_name)
-- 
2.43.0


From 1141a5b1d4c24662c324bb6c97c8782f0be81d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 23/76] fix: an extension is inactive after its teardown
 function failed

---
 mdp/extension.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 01c71b3..bcdb60d 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -385,9 +385,11 @@ def deactivate_extension(extension_name, verbose=False):
                 # no original attribute to restore, so simply delete
                 delattr(node_cls, attr_name)
             delattr(node_cls, ext_attr_name)
-    if _TEARDOWN_FUNC_ATTR in _extensions[extension_name]:
-        _extensions[extension_name][_TEARDOWN_FUNC_ATTR]()
-    _active_extensions.remove(extension_name)
+    try:
+        if _TEARDOWN_FUNC_ATTR in _extensions[extension_name]:
+            _extensions[extension_name][_TEARDOWN_FUNC_ATTR]()
+    finally:
+        _active_extensions.remove(extension_name)
 
 def activate_extensions(extension_names, verbose=False):
     """Activate all the extensions for the given names.
-- 
2.43.0


From 9fb6f8f0d44c6ed0bbd6e7a21bc2f446bc1c46b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 24/76] fix: activating an extension always stores the original
 attribute

If the attribute of a superclass was already overwritten by another
extension then the original attribute was not stored, so it was missing
after the other extension had been deactivated.
---
 mdp/extension.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index bcdb60d..94c0c6c 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -324,18 +324,20 @@ def activate_extension(extension_name, verbose=False):
                                + "' and newly activated extension '" +
                                extension_name + "'.")
                         raise ExtensionException(err)
-                    # do not store the attribute of another extension class
-                    # which is inherited from a superclass
-                    if (attr_name in node_cls.__dict__ or
-                        ext_attr_name not in dir(node_cls)):
-                        original_attr = [x.__dict__[attr_name]
-                                         for x in node_cls.__mro__
-                                         if attr_name in x.__dict__][0]
+                    # find the original attribute, which for a superclass
+                    # might be overwritten by an (other) extension
+                    original_name = ORIGINAL_ATTR_PREFIX + attr_name
+                    original_attrs = [
+                        x.__dict__.get(original_name, x.__dict__.get(attr_name))
+                        for x in node_cls.__mro__
+                        if original_name in x.__dict__ or
+                        (attr_name in x.__dict__ and
+                         ext_attr_name not in x.__dict__)]
+                    if original_attrs:
                         if verbose:
                             print ("extension %s: overwriting %s in %s" %
                                 (extension_name, attr_name, node_cls.__name__))
-                        setattr(node_cls, ORIGINAL_ATTR_PREFIX + attr_name,
-                                original_attr)
+                        setattr(node_cls, original_name, original_attrs[0])
                 setattr(node_cls, attr_name, attr_value)
                 # store to which extension this attribute belongs, this is also
                 # used as a flag that this is an extension attribute
-- 
2.43.0


From 6f2c34401965d05adf25b4cf359403ee6061c6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:15 +0000
Subject: [PATCH 25/76] fix: NIPALSNode and VartimeSFANode are not forked

They inherited the fork and join of PCANode and SFANode, which lost the
data collected by a NIPALSNode and the dependence between successive
chunks of a VartimeSFANode.
---
 mdp/parallel/parallelnodes.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/mdp/parallel/parallelnodes.py b/mdp/parallel/parallelnodes.py
index b0ca7cc..465df10 100644
--- a/mdp/parallel/parallelnodes.py
+++ b/mdp/parallel/parallelnodes.py
@@ -191,6 +191,17 @@ class ParallelPCANode(ParallelExtensionNode, mdp.nodes.PCANode):
             self._join_covariance(self._cov_mtx, forked_node._cov_mtx)
 
 
+class ParallelNIPALSNode(ParallelExtensionNode, mdp.nodes.NIPALSNode):
+    """The NIPALSNode can not be forked.
+
+    The node collects the data itself instead of using a covariance matrix, so
+    the methods inherited from the PCANode would lose the data of the forks.
+    """
+
+    def _fork(self):
+        raise NotForkableParallelException("NIPALSNode can not be forked.")
+
+
 class ParallelSFANode(ParallelExtensionNode, mdp.nodes.SFANode):
     """Parallel version of MDP SFA node."""
 
@@ -208,6 +219,18 @@ class ParallelSFANode(ParallelExtensionNode, mdp.nodes.SFANode):
             self._join_covariance(self._dcov_mtx, forked_node._dcov_mtx)
 
 
+class ParallelVartimeSFANode(ParallelExtensionNode, mdp.nodes.VartimeSFANode):
+    """The VartimeSFANode can not be forked.
+
+    The time dependence between successive chunks is part of the training, so
+    the chunks can not be treated independently.
+    """
+
+    def _fork(self):
+        raise NotForkableParallelException(
+                                    "VartimeSFANode can not be forked.")
+
+
 class ParallelFDANode(ParallelExtensionNode, mdp.nodes.FDANode):
 
     def _fork(self):
-- 
2.43.0


From 8a289a2cc21333c5a468d889f35b5e4e91d99aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 26/76] fix: NormalizingRecursiveExpansionNode does not modify
 the data in execute

---
 mdp/nodes/recursive_expansion_nodes.py | 46 ++++++++++++++------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/mdp/nodes/recursive_expansion_nodes.py b/mdp/nodes/recursive_expansion_nodes.py
index 1c2e382..02d829b 100644
--- a/mdp/nodes/recursive_expansion_nodes.py
+++ b/mdp/nodes/recursive_expansion_nodes.py
@@ -690,7 +690,7 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             be along the first axis, variables along the second.
         :type x: numpy.ndarray
         """
-        self.domain_transformation(x)
+        x = self.domain_transformation(x)
         return super(NormalizingRecursiveExpansionNode, self)._execute(x)
 
     def _train(self, x):
@@ -732,30 +732,27 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             than the ones already supplied during training.
         """
 
+        # the transformation is x -> (x + domain_shift)*domain_scale
+        self.domain_shift = 0.
+        self.domain_scale = 1.
+
         # the following conditionals go through different domain types
         if self.lower is None or self.upper is None:
-            def f(x):
-                return x
+            pass
 
         elif self.lower == -float('Inf') and self.upper == float('Inf'):
-            def f(x):
-                return x
+            pass
 
         elif self.lower == -float('Inf'):
             self.diff = self.amaxcolumn-self.upper
             self.diff = self.diff.clip(min=0)
-
-            def f(x):
-                x -= self.diff
-                return x
+            self.domain_shift = -self.diff
 
         elif self.upper == float('Inf'):
             self.diff = self.amincolumn-self.lower
             self.diff = self.diff.clip(max=0)
+            self.domain_shift = -self.diff
 
-            def f(x):
-                x -= self.diff
-                return x
         else:
             mean = self.lower+(self.upper-self.lower)/2.0
             dev = (self.upper-self.lower)
@@ -767,18 +764,23 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             datamean = (xmax+xmin)/2.
 
             if (xmax < self.upper) and (xmin > self.lower):
-                def f(x):
-                    return x
+                pass
             elif datamaxdev < dev:
-                def f(x):
-                    x += (-datamean)+mean
-                    return x
+                self.domain_shift = (-datamean)+mean
             else:
-                def f(x):
-                    x += (-datamean)+mean*datamaxdev/dev
-                    x *= dev/datamaxdev
-                    return x
-        self.domain_transformation = f
+                self.domain_shift = (-datamean)+mean*datamaxdev/dev
+                self.domain_scale = dev/datamaxdev
+
+    def domain_transformation(self, x):
+        """Return the data transformed to the domain of the family of functions.
+
+        :param x: The data to be transformed, it is not modified.
+        :type x: numpy.ndarray
+
+        :returns: The transformed data.
+        :rtype: numpy.ndarray
+        """
+        return self._refcast((x+self.domain_shift)*self.domain_scale)
 
     @staticmethod
     def is_trainable():
-- 
2.43.0


From ec521d9dfea4cae5de6327fca9a9762b398197ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 27/76] fix: FastICANode does not modify the guess given by the
 user

---
 mdp/nodes/ica_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/ica_nodes.py b/mdp/nodes/ica_nodes.py
index 2526bdc..7c5b8fa 100644
--- a/mdp/nodes/ica_nodes.py
+++ b/mdp/nodes/ica_nodes.py
@@ -820,7 +820,8 @@ class FastICANode(ICANode):
 
                 # Take a random initial vector of lenght 1 and orthogonalize it
                 # with respect to the other vectors.
-                w  = guess[:, round]
+                # the updates below are in place, do not modify the guess
+                w  = guess[:, round].copy()
                 w -= mult(mult(Q, Q.T), w)
                 w /= utils.norm2(w)
 
-- 
2.43.0


From dec5e61d12dfad34c7330709591d37be57c7e82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 28/76] fix: neural gas nodes do not move the start positions
 given by the user

---
 mdp/nodes/neural_gas_nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/neural_gas_nodes.py b/mdp/nodes/neural_gas_nodes.py
index d0ec7b9..9db0346 100644
--- a/mdp/nodes/neural_gas_nodes.py
+++ b/mdp/nodes/neural_gas_nodes.py
@@ -136,8 +136,8 @@ class GrowingNeuralGasNode(Node):
         if start_poss is not None:
             if self.dtype is None:
                 self.dtype = start_poss[0].dtype
-            node1 = self._add_node(self._refcast(start_poss[0]))
-            node2 = self._add_node(self._refcast(start_poss[1]))
+            node1 = self._add_node(self._refcast(start_poss[0]).copy())
+            node2 = self._add_node(self._refcast(start_poss[1]).copy())
             self._add_edge(node1, node2)
 
     def _set_input_dim(self, n):
@@ -447,7 +447,7 @@ class NeuralGasNode(GrowingNeuralGasNode):
             if self.dtype is None:
                 self.dtype = start_poss[0].dtype
             for node_ind in range(self.num_nodes):
-                self._add_node(self._refcast(start_poss[node_ind]))
+                self._add_node(self._refcast(start_poss[node_ind]).copy())
         self.epoch = 0
 
 
-- 
2.43.0


From 8cfd9a5a1e5ef457af98e28bab2e57522ade24cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 29/76] fix: XSFANode does not add entries to the keyword
 arguments given by the user

---
 mdp/nodes/xsfa_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/xsfa_nodes.py b/mdp/nodes/xsfa_nodes.py
index 7ba1950..0960827 100644
--- a/mdp/nodes/xsfa_nodes.py
+++ b/mdp/nodes/xsfa_nodes.py
@@ -103,7 +103,7 @@ class XSFANode(mdp.Node):
         else:
             self.basic_exp = basic_exp[0]
             self.basic_exp_args = basic_exp[1]
-            self.basic_exp_kwargs = basic_exp[2]
+            self.basic_exp_kwargs = dict(basic_exp[2])
 
         # set up internal expansion
         if intern_exp is None:
@@ -113,7 +113,7 @@ class XSFANode(mdp.Node):
         else:
             self.exp = intern_exp[0]
             self.exp_args = intern_exp[1]
-            self.exp_kwargs = intern_exp[2]
+            self.exp_kwargs = dict(intern_exp[2])
 
         # number of sources already extracted
         self.n_extracted_src = 0
-- 
2.43.0


From 0a308b935edb04cc92779255f690aedca35dcfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 30/76] fix: ShogunSVMClassifier options do not change the
 defaults of the class

---
 mdp/nodes/shogun_svm_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/shogun_svm_classifier.py b/mdp/nodes/shogun_svm_classifier.py
index 6c834a9..77ab004 100644
--- a/mdp/nodes/shogun_svm_classifier.py
+++ b/mdp/nodes/shogun_svm_classifier.py
@@ -335,7 +335,7 @@ class ShogunSVMClassifier(_SVMClassifier):
 
         self.classifier = Classifier()
         self.classifier.set_classifier(classifier, classifier_arguments)
-        self.classifier_options = self.default_parameters
+        self.classifier_options = self.default_parameters.copy()
         self.classifier_options.update(classifier_options)
 
         for p in list(self.classifier_options.keys()):
-- 
2.43.0


From 1caf3bdd82d6d0483df4f0f88e49be184b47acf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 31/76] fix: MessageResultContainer combines values without
 modifying the first message

---
 bimdp/biflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index c5e9395..7d25132 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -68,7 +68,8 @@ class MessageResultContainer(object):
                         self._msg_results[key] = msg[key]
                     else:
                         try:
-                            self._msg_results[key] += msg[key]
+                            self._msg_results[key] = (
+                                        self._msg_results[key] + msg[key])
                         except:
                             err = ("Could not combine final msg results "
                                    "in BiFlow.")
-- 
2.43.0


From 0530e7660342a319ccc51dbee444b53eb08edc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 32/76] fix: show_training does not replace entries of the
 lists given by the user

---
 bimdp/inspection/facade.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bimdp/inspection/facade.py b/bimdp/inspection/facade.py
index afefa90..09882f0 100644
--- a/bimdp/inspection/facade.py
+++ b/bimdp/inspection/facade.py
@@ -162,6 +162,9 @@ def show_training(flow, data_iterables, msg_iterables=None, stop_messages=None,
     # if data_iterables is an array, wrap it up in a list
     if isinstance(data_iterables, numx.ndarray):
         data_iterables = [[data_iterables]] * len(flow)
+    else:
+        # the entries are replaced below, do not modify the arguments
+        data_iterables = list(data_iterables)
     x_samples = []
     for i, data_iterable in enumerate(data_iterables):
         if data_iterable is None:
@@ -172,6 +175,7 @@ def show_training(flow, data_iterables, msg_iterables=None, stop_messages=None,
         data_iterables[i] = new_data_iterable
     del x_sample
     if msg_iterables:
+        msg_iterables = list(msg_iterables)
         msg_samples = []
         for i, msg_iterable in enumerate(msg_iterables):
             if msg_iterable is None:
-- 
2.43.0


From db3593d2d4559160c486cb79899b506ee2baf4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:08 +0000
Subject: [PATCH 33/76] fix: BiFlow does not consume the messages it is given

---
 bimdp/biflow.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 7d25132..61c7f2a 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -253,7 +253,8 @@ class BiFlow(mdp.Flow):
         if stop_msg is None:
             result = self.flow[nodenr].stop_training()
         else:
-            result = self.flow[nodenr].stop_training(stop_msg)
+            # use a copy, the message is used again in the next phase
+            result = self.flow[nodenr].stop_training(stop_msg.copy())
         if result is None:
             # the training phase ends here without an execute phase
             return
@@ -526,6 +527,10 @@ class BiFlow(mdp.Flow):
         current msg is simply carried forward around it.
         """
         ## this method is also used by other classes, like BiFlowNode
+        # the nodes remove entries from the message that they receive, so a
+        # copy makes sure that the given message can be used again
+        if msg:
+            msg = msg.copy()
         while i_node != stop_at_node:
             if isinstance(self.flow[i_node], BiNode):
                 result = self.flow[i_node].execute(x, msg)
-- 
2.43.0


From 84587da4ae23a4b4c30f29c94d8efd30ec5e7c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 34/76] fix: ParallelBiFlow and inspect_training do not consume
 the messages they are given

---
 bimdp/inspection/tracer.py       |  5 ++++-
 bimdp/parallel/parallelbiflow.py | 18 +++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index 6d00df1..5075706 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -865,7 +865,10 @@ def _trace_biflow_training(snapshot_path, inspection_path,
                     tracer.trace_training(trace_name=trace_name,
                                           path=inspection_path,
                                           flow=biflow,
-                                          x=x, msg=msg, stop_msg=stop_msg,
+                                          x=x,
+                                          msg=msg.copy() if msg else msg,
+                                          stop_msg=(stop_msg.copy()
+                                                    if stop_msg else stop_msg),
                                           debug=debug,
                                           **kwargs)
                 slide_filenames += train_files
diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 766bc66..7123628 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -362,6 +362,17 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             # training is finished
             self._i_train_node = None
 
+    def _get_stop_message(self):
+        """Return the stop message of the node that is trained.
+
+        This is a copy, because the nodes remove entries from the message and
+        it is used again in the next training phase.
+        """
+        stop_msg = self._stop_messages[self._i_train_node]
+        if stop_msg:
+            return stop_msg.copy()
+        return stop_msg
+
     def _local_train_phase(self, iterable, msg_iterable):
         """Perform a single training phase locally.
 
@@ -374,13 +385,14 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             i_task += 1
             # Note: if x contains additional args assume that the
             # callable can handle this
-            task_callable((x, msg))
+            # the nodes remove entries from the message
+            task_callable((x, msg.copy() if msg else msg))
             if self.verbose:
                 print ("    finished nonparallel task no. %d" % i_task)
         # perform stop_training with result check
         self._stop_training_hook()
         result = self._flownode.stop_training(
-                                self._stop_messages[self._i_train_node])
+                                self._get_stop_message())
         self._post_stop_training_hook()
         if (result is not None) and (not isinstance(result, dict)):
             if (isinstance(result, tuple) and
@@ -547,7 +559,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             # perform local stop_training with result check
             self._stop_training_hook()
             result = self._flownode.stop_training(
-                                    self._stop_messages[self._i_train_node])
+                                    self._get_stop_message())
             self._post_stop_training_hook()
             if (result is not None):
                 target = result[2]
-- 
2.43.0


From 1c8485e9ac481884510c03f5ea294bd0d7f91be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:28 +0000
Subject: [PATCH 35/76] fix: CloneLayer passes on the additional arguments of
 execute and inverse

---
 mdp/hinet/layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index 1894d5d..999838d 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -271,13 +271,13 @@ class CloneLayer(Layer):
     def _execute(self, x, *args, **kwargs):
         n_samples = x.shape[0]
         x = x.reshape(n_samples * x.shape[1] // self.node.input_dim, self.node.input_dim)
-        y = self.node.execute(x)
+        y = self.node.execute(x, *args, **kwargs)
         return y.reshape(n_samples, self.output_dim)
 
     def _inverse(self, x, *args, **kwargs):
         n_samples = x.shape[0]
         x = x.reshape(n_samples * x.shape[1] // self.node.output_dim, self.node.output_dim)
-        y = self.node.inverse(x)
+        y = self.node.inverse(x, *args, **kwargs)
         return y.reshape(n_samples, self.input_dim)
 
 
-- 
2.43.0


From d8f2dfd8088f677c80acea9b67cfbce1d2e7d990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:36 +0000
Subject: [PATCH 36/76] fix: FlowNode.copy leaves the flow of the original node
 as it was

The list of nodes was replaced by a Flow object (flow[:] returns a Flow) and
by None when the copy failed.
---
 mdp/hinet/flownode.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index a6a10f7..140461a 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -196,13 +196,15 @@ class FlowNode(mdp.Node):
         #    result of _get_train_seq).
         #
         # copy the nodes by delegation
-        old_nodes = self._flow[:]
+        old_nodes = self._flow.flow
         new_nodes = [node.copy() for node in old_nodes]
         # now copy the rest of this flownode via deepcopy
         self._flow.flow = None
-        new_flownode = _copy.deepcopy(self)
+        try:
+            new_flownode = _copy.deepcopy(self)
+        finally:
+            self._flow.flow = old_nodes
         new_flownode._flow.flow = new_nodes
-        self._flow.flow = old_nodes
         return new_flownode
 
     ## container methods ##
-- 
2.43.0


From 655ae36bf1d3d2c1afb0d3addcea84aa0b7b7ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:53 +0000
Subject: [PATCH 37/76] fix: a FlowNode takes its output dimension from its
 nodes when it is executed

An untrainable FlowNode that expands or reduces the dimension could not be
executed unless its output dimension was already known.
---
 mdp/hinet/flownode.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index 140461a..4118af7 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -170,8 +170,20 @@ class FlowNode(mdp.Node):
                                                         train_seq[-1][1]))
         return train_seq
 
+    def _pre_execution_checks(self, x):
+        if self.output_dim is not None or self.is_training():
+            super(FlowNode, self)._pre_execution_checks(x)
+            return
+        # The standard checks would set the output dimension to the input
+        # dimension, but it is the internal nodes that determine it.
+        self._check_input(x)
+
     def _execute(self, x, *args, **kwargs):
-        return self._flow.execute(x, *args, **kwargs)
+        y = self._flow.execute(x, *args, **kwargs)
+        if self.output_dim is None:
+            # now all the internal nodes know their dimensions
+            self._fix_nodes_dimensions()
+        return y
 
     def _inverse(self, x):
         return self._flow.inverse(x)
-- 
2.43.0


From a9f4e1abf2c116fb95b53d9a63da7f5fbcb688f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:26 +0000
Subject: [PATCH 38/76] fix: BiFlow refuses relative targets outside of the
 flow

A target below -1 wrapped around to a node at the end of the flow.
---
 bimdp/biflow.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 61c7f2a..a4d5564 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -564,6 +564,11 @@ class BiFlow(mdp.Flow):
                         return (x, msg)
                 elif i_node == -1:
                     return x, msg, -1
+                elif i_node < -1 or i_node > len(self.flow):
+                    err = ("Target int value references a node outside of " +
+                           "the flow (target " + str(target) +
+                           ", current node " + str(i_node - target) + ").")
+                    raise BiFlowException(err)
             else:
                 i_node = self._target_to_index(target, i_node)
                 if not isinstance(i_node, int):
-- 
2.43.0


From 27307471f8c0afc4d4b3d6823065a8b1204e33ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 39/76] fix: BiFlow.execute accepts several chunks without data
 result

When all results were None the second chunk was refused with the message that
only some of them were None.
---
 bimdp/biflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index a4d5564..0b19ef3 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -348,7 +348,7 @@ class BiFlow(mdp.Flow):
                 else:
                     y_results.append(y)
             else:
-                if y_results is None:
+                if not y_results:
                     y_results = False
                 else:
                     err = "Some but not all y return values were None."
-- 
2.43.0


From 36800a1acbbf99e6f22217cb7988fc2f6e9c4af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 40/76] fix: BiFlow.execute accepts an iterable of messages
 without data

---
 bimdp/biflow.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 0b19ef3..18da2b7 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -462,6 +462,8 @@ class BiFlow(mdp.Flow):
                 if isinstance(msg_iterable, dict):
                     msg_iterable = [msg_iterable]
                     target_iterable = [target_iterable]
+                elif target_iterable is None:
+                    target_iterable = NoneIterable()
         else:
             if msg_iterable is None:
                 msg_iterable = NoneIterable()
-- 
2.43.0


From 2fc44a35a85c1cbdbbf7a55da0a666f1193d7602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 41/76] fix: BiFlow reports results of invalid type instead of
 failing with a TypeError

---
 bimdp/biflow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 18da2b7..20fa757 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -332,7 +332,7 @@ class BiFlow(mdp.Flow):
                 raise BiFlowException(err)
             else:
                 err = ("BiNode execution returned invalid result type: " +
-                       result)
+                       str(result))
                 raise BiFlowException(err)
             self._bi_reset()
             if msg:
@@ -548,7 +548,7 @@ class BiFlow(mdp.Flow):
                     x, msg, target = result
                 else:
                     err = ("BiNode execution returned invalid result type: " +
-                           result)
+                           str(result))
                     raise BiFlowException(err)
             else:
                 # just a normal MDP node
-- 
2.43.0


From 5a01917a8ad04949685036b5791f1f31a5184fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:03 +0000
Subject: [PATCH 42/76] fix: the execution after stop_training may end directly
 at the end of the flow

BiFlow.train failed when the last node returned a result for the execution
phase, which is documented to end when the end of the flow is reached.
---
 bimdp/biflow.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 20fa757..5f2f6f4 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -274,6 +274,11 @@ class BiFlow(mdp.Flow):
             err = ("Node produced invalid return value " +
                    "for stop_training: " + str(result))
             raise BiFlowException(err)
+        if target is None:
+            target = 1
+        if isinstance(target, int) and nodenr + target in (-1, len(self.flow)):
+            # the end of the flow is reached at once
+            return
         i_node = self._target_to_index(target, nodenr)
         result = self._execute_seq(x, msg, i_node=i_node)
         # check that we reached the end of flow or get EXIT_TARGET,
-- 
2.43.0


From a82c64507023509bad21545beff9a99b5b857080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:40 +0000
Subject: [PATCH 43/76] fix: BiCheckpointFlow accepts checkpoint functions
 without result

CheckpointFunction objects return None by default, which made train fail.
---
 bimdp/biflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 5f2f6f4..35d835d 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -625,7 +625,7 @@ class BiCheckpointFlow(BiFlow, mdp.CheckpointFlow):
                              msg_iterables[i_node], stop_messages[i_node])
             if i_node <= len(checkpoints) and checkpoints[i_node] is not None:
                 checkpoint_dict = checkpoints[i_node](self.flow[i_node])
-                if dict:
+                if checkpoint_dict:
                     self.__dict__.update(checkpoint_dict)
             if self.verbose:
                 print("training finished")
-- 
2.43.0


From 47a9d5df706777ecec07935b9538461ea710f173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:28 +0000
Subject: [PATCH 44/76] fix: GSFANode._stop_training prints the derivative
 covariance it computed

---
 mdp/nodes/gsfa_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index f4f76a5..3527f79 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -473,7 +473,7 @@ class GSFANode(mdp.Node):
             print("Finishing GSFA training: ", self._covdcovmtx.num_samples)
             print(" num_samples, and ", self._covdcovmtx.num_diffs,
                   " num_diffs")
-            print("DCov[0:3,0:3] is", self.dcov_mtx[0:3, 0:3])
+            print("DCov[0:3,0:3] is", dcov_mtx[0:3, 0:3])
 
         rng = self._set_range()
         # Solve the generalized eigenvalue problem
-- 
2.43.0


From 188faf679cb81f4fe153143b554d965d37a1d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:28 +0000
Subject: [PATCH 45/76] fix: ISFANode reports weights of invalid length instead
 of failing with a TypeError

---
 mdp/nodes/isfa_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/isfa_nodes.py b/mdp/nodes/isfa_nodes.py
index b8cc69e..14ad5bb 100644
--- a/mdp/nodes/isfa_nodes.py
+++ b/mdp/nodes/isfa_nodes.py
@@ -197,7 +197,7 @@ class ISFANode(Node):
         else:
             if (len(icaweights) != len(lags)):
                 err = ("icaweights vector length is %d, "
-                       "should be %d" % (str(len(icaweights)), str(len(lags))))
+                       "should be %d" % (len(icaweights), len(lags)))
                 raise NodeException(err)
             self.icaweights = icaweights
 
@@ -207,7 +207,7 @@ class ISFANode(Node):
         else:
             if (len(sfaweights) != len(lags)):
                 err = ("sfaweights vector length is %d, "
-                       "should be %d" % (str(len(sfaweights)), str(len(lags))))
+                       "should be %d" % (len(sfaweights), len(lags)))
                 raise NodeException(err)
             self.sfaweights = sfaweights
 
-- 
2.43.0


From dce28072ea7a060133e0f6fab8e6fe0101e7ecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:28 +0000
Subject: [PATCH 46/76] fix: cpu_count uses an existing function to run sysctl

---
 mdp/parallel/scheduling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index e8c0d5b..773a51a 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -177,7 +177,7 @@ def cpu_count():
                     return n_cpus
             else:
                 # OSX
-                return int(os.popen2("sysctl -n hw.ncpu")[1].read())
+                return int(os.popen("sysctl -n hw.ncpu").read())
         # Windows
         if "NUMBER_OF_PROCESSORS" in os.environ:
             n_cpus = int(os.environ["NUMBER_OF_PROCESSORS"])
-- 
2.43.0


From 37a141b972d38ddef5a87150b0081a5883bc1c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:28 +0000
Subject: [PATCH 47/76] fix: NetworkPPScheduler uses the given
 slave_kill_filename

---
 mdp/parallel/pp_support.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/parallel/pp_support.py b/mdp/parallel/pp_support.py
index 9259da0..6ac7be4 100644
--- a/mdp/parallel/pp_support.py
+++ b/mdp/parallel/pp_support.py
@@ -203,8 +203,8 @@ class NetworkPPScheduler(PPScheduler):
         self._remote_pids = None  # list of the pids of the remote servers
         self._port = port
         if slave_kill_filename is None:
-            slave_kill_file = tempfile.mkstemp(prefix='MDPtmp-')[1]
-        self.slave_kill_file = slave_kill_file
+            slave_kill_filename = tempfile.mkstemp(prefix='MDPtmp-')[1]
+        self.slave_kill_file = slave_kill_filename
         self._secret = secret
         self._slave_nice = nice
         self._timeout = timeout
-- 
2.43.0


From 0d3f2b9ac7c9a0e4afe87ae4e14e73786729886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:28 +0000
Subject: [PATCH 48/76] fix: complex eigenvalues are reported with
 SymeigException

---
 mdp/utils/_symeig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/utils/_symeig.py b/mdp/utils/_symeig.py
index f31a352..434cbb5 100644
--- a/mdp/utils/_symeig.py
+++ b/mdp/utils/_symeig.py
@@ -36,7 +36,7 @@ def _assert_eigenvalues_real(w, dtype):
     tol = numx.finfo(dtype.type).eps * 100
     if abs(w.imag).max() > tol:
         err = "Some eigenvalues have significant imaginary part: %s " % str(w)
-        raise mdp.SymeigException(err)
+        raise SymeigException(err)
     #if w.real.min() < 0:
     #    err = "Got negative eigenvalues: %s" % str(w)
     #    raise SymeigException(err)
-- 
2.43.0


From 87e6a588f3868b567f208fb5377871c4a8cdee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:28 +0000
Subject: [PATCH 49/76] fix: CloneBiLayer can be switched back to a single node

---
 bimdp/hinet/bilayer.py            | 4 ----
 bimdp/parallel/parallelbihinet.py | 3 ---
 2 files changed, 7 deletions(-)

diff --git a/bimdp/hinet/bilayer.py b/bimdp/hinet/bilayer.py
index c8d3e28..afe0484 100644
--- a/bimdp/hinet/bilayer.py
+++ b/bimdp/hinet/bilayer.py
@@ -80,10 +80,6 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
                 err = ("Calling switch_to_instance during training will "
                        "probably result in lost training data.")
                 raise CloneBiLayerException(err)
-            elif self.is_bi_training():
-                err = ("Calling switch_to_instance during bi_learning will "
-                       "probably result in lost learning data.")
-                raise CloneBiLayerException(err)
             self.node = self.nodes[0]
             self.nodes = [self.node] * len(self.nodes)
 
diff --git a/bimdp/parallel/parallelbihinet.py b/bimdp/parallel/parallelbihinet.py
index c32ad76..0cc81d1 100644
--- a/bimdp/parallel/parallelbihinet.py
+++ b/bimdp/parallel/parallelbihinet.py
@@ -35,9 +35,6 @@ class ParallelCloneBiLayer(CloneBiLayer, mdp.parallel.ParallelExtensionNode):
             if self.is_training():
                 for forked_node in self.nodes[1:]:
                     self.nodes[0].join(forked_node)
-            elif self.is_bi_training():
-                for forked_node in self.nodes[1:]:
-                    self.nodes[0].bi_join(forked_node)
             self.node = self.nodes[0]
             self.nodes = (self.node,) * len(self.nodes)
 
-- 
2.43.0


From 2857bb6fd49637b26fbde8490445483cd5d9591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:28 +0000
Subject: [PATCH 50/76] fix: the HTML tracer reports errors when it cannot open
 its frame

---
 bimdp/inspection/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index 5075706..c2d8093 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -236,8 +236,8 @@ class InspectionHTMLTracer(object):
         args, kwargs -- The arguments of the method call.
         """
         ## write visualization to html_file
+        html_file = self._begin_HTML_frame()
         try:
-            html_file = self._begin_HTML_frame()
             section_id, node_id = self._html_converter.write_html(
                                             path=self._trace_path,
                                             html_file=html_file,
-- 
2.43.0


From 17b88279eb8ad1bb106de73f2f044d05f21e5520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 51/76] fix: iGSFANode can be created with expansion functions

---
 mdp/nodes/gsfa_nodes.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index 3527f79..0a548ac 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -1359,14 +1359,13 @@ class iGSFANode(mdp.Node):
         self.expansion_starting_point = expansion_starting_point
 
         # creates an expansion node
-        if expansion_funcs and self.expansion_output_dim is not None:
-            self.exp_node = GeneralExpansionNode(
-                funcs=expansion_funcs, output_dim=self.expansion_output_dim,
-                starting_point=self.expansion_starting_point)
-        elif expansion_funcs:
-            self.exp_node = GeneralExpansionNode(
-                funcs=expansion_funcs,
-                starting_point=self.expansion_starting_point)
+        if expansion_funcs:
+            if expansion_output_dim is not None or \
+                    expansion_starting_point is not None:
+                er = ("GeneralExpansionNode supports neither "
+                      "expansion_output_dim nor expansion_starting_point")
+                raise NodeException(er)
+            self.exp_node = GeneralExpansionNode(funcs=expansion_funcs)
         else:
             self.exp_node = None
 
-- 
2.43.0


From 16fcfe6c149467706e825af04e9700953f34a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 52/76] fix: ShogunSVMClassifier.set_kernel accepts unknown
 kernels with a list of arguments

---
 mdp/nodes/shogun_svm_classifier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/nodes/shogun_svm_classifier.py b/mdp/nodes/shogun_svm_classifier.py
index 77ab004..79b282f 100644
--- a/mdp/nodes/shogun_svm_classifier.py
+++ b/mdp/nodes/shogun_svm_classifier.py
@@ -415,6 +415,9 @@ class ShogunSVMClassifier(_SVMClassifier):
             default_opts = _OrderedDict(ShogunSVMClassifier.kernel_parameters[kernel_name])
             default_opts.update(kernel_options)
             options = list(default_opts.values())
+        else:
+            # ordered list of constructor arguments
+            options = kernel_options
 
         kernel_meth = getattr(sgKernel, kernel_name)
         try:
-- 
2.43.0


From 11c366121a2d7d1b022b0ec277f7428d9967158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:27 +0000
Subject: [PATCH 53/76] fix: the HTML view of a DoubleRect2dSwitchboard can be
 created

---
 mdp/hinet/htmlvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/hinet/htmlvisitor.py b/mdp/hinet/htmlvisitor.py
index 652a63f..1735b6d 100644
--- a/mdp/hinet/htmlvisitor.py
+++ b/mdp/hinet/htmlvisitor.py
@@ -243,7 +243,7 @@ def _double_rect2d_switchoard_html(self):
              'total number of receptive fields: %d' %
                 self.output_channels,
              'channel width: %d' % self.in_channel_dim]
-    if self.x_unused_channels or self.y_unused_channels:
+    if any(self.unused_channels_xy):
         lines.append('unused channels: ' + str(self.unused_channels_xy))
     return lines
 
-- 
2.43.0


From f356e34024e02be4aa209704e8aafb1d538fa5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:48 +0000
Subject: [PATCH 54/76] fix: KMeansClassifier draws its initial centroids from
 the generator of numpy

---
 mdp/nodes/classifier_nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index 9b57ebd..2e4d571 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -409,9 +409,9 @@ class KMeansClassifier(ClassifierNode):
 
         # choose initial centroids unless they are already given
         if not self._centroids:
-            import random
-            centr_idx = random.sample(range(self.tlen), self._num_clusters)
-            #numx_rand.permutation(self.tlen)[:self._num_clusters]
+            if self._num_clusters > self.tlen:
+                raise ValueError('More clusters than training data')
+            centr_idx = numx_rand.permutation(self.tlen)[:self._num_clusters]
             centroids = self.data[centr_idx]
         else:
             centroids = self._centroids
-- 
2.43.0


From d40eac4beb4af552665dec3ab84c9ad286d354df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:48 +0000
Subject: [PATCH 55/76] fix: KMeansClassifier keeps its centroids when it does
 not converge

---
 mdp/nodes/classifier_nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index 2e4d571..5f04715 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -435,6 +435,8 @@ class KMeansClassifier(ClassifierNode):
                 self._centroids = centroids
                 return
             centroids = new_centroids
+        # no convergence
+        self._centroids = centroids
 
     def _nearest_centroid_idx(self, data, centroids):
         dists = numx.array([numx.linalg.norm(data - c) for c in centroids])
-- 
2.43.0


From 9f7509abc511e77f09247667fca213a949634486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:48 +0000
Subject: [PATCH 56/76] fix: weighted_choice draws from the generator of numpy

---
 mdp/utils/routines.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mdp/utils/routines.py b/mdp/utils/routines.py
index d00237b..f30aaa3 100644
--- a/mdp/utils/routines.py
+++ b/mdp/utils/routines.py
@@ -8,7 +8,6 @@ import mdp
 # import numeric module (scipy, Numeric or numarray)
 numx, numx_rand, numx_linalg  = mdp.numx, mdp.numx_rand, mdp.numx_linalg
 numx_description = mdp.numx_description
-import random
 import itertools
 import sys
 
@@ -446,7 +445,7 @@ def weighted_choice(a_dict, normalize=True):
             d[key] = old_div(d[key], s)
     else:
         d = a_dict
-    rand_num = random.random()
+    rand_num = numx_rand.random()
     total_rand = 0
     for key, val in list(d.items()):
         total_rand += val
-- 
2.43.0


From fca979599520c5b714869769c2a49e43342cafcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 57/76] fix: RecursiveExpansionNode can be created with an
 input_dim

---
 mdp/nodes/recursive_expansion_nodes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/recursive_expansion_nodes.py b/mdp/nodes/recursive_expansion_nodes.py
index 02d829b..6c2a8ad 100644
--- a/mdp/nodes/recursive_expansion_nodes.py
+++ b/mdp/nodes/recursive_expansion_nodes.py
@@ -500,11 +500,14 @@ class RecursiveExpansionNode(_ExpansionNode):
             Default is None.
         :type dtype: numpy.dtype or str
         """
-        super(RecursiveExpansionNode, self).__init__(input_dim, dtype)
-
+        # this must occur *before* calling super: setting the input dimension
+        # computes the output dimension
         self.degree = degree
         self.check = check
         self.with0 = with0
+
+        super(RecursiveExpansionNode, self).__init__(input_dim, dtype)
+
         # if in dictionary
         if recf in recfs:
                 # intialises the elements not based on recursion formula
-- 
2.43.0


From d0d84df1bac6a721bfb7ce08ab62dfbac8cf73d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 58/76] fix: CCIPCANode and MCANode start from the eigenvectors
 given to the constructor

---
 mdp/nodes/mca_nodes_online.py | 3 +++
 mdp/nodes/pca_nodes_online.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mdp/nodes/mca_nodes_online.py b/mdp/nodes/mca_nodes_online.py
index 653a234..bdcc48b 100755
--- a/mdp/nodes/mca_nodes_online.py
+++ b/mdp/nodes/mca_nodes_online.py
@@ -111,6 +111,9 @@ class MCANode(mdp.OnlineNode):
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.output_dim).astype(self.dtype)
             else:
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.input_dim).astype(self.dtype)
+        elif self.v is None:
+            # start from the eigenvectors given to the constructor
+            self.init_eigen_vectors = self._init_v
 
     def _train(self, x):
         """Update the minor components."""
diff --git a/mdp/nodes/pca_nodes_online.py b/mdp/nodes/pca_nodes_online.py
index a5b482a..64b24e2 100755
--- a/mdp/nodes/pca_nodes_online.py
+++ b/mdp/nodes/pca_nodes_online.py
@@ -121,6 +121,9 @@ class CCIPCANode(mdp.OnlineNode):
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.output_dim).astype(self.dtype)
             else:
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.input_dim).astype(self.dtype)
+        elif self.v is None:
+            # start from the eigenvectors given to the constructor
+            self.init_eigen_vectors = self._init_v
 
     def _amnesic(self, n):
         """Return amnesic weights.
-- 
2.43.0


From 5a36b1f4a53bc455b558f39a872e13e9ffe33eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 59/76] fix: IncSFANode can be trained with remove_mean=False

---
 mdp/nodes/sfa_nodes_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/sfa_nodes_online.py b/mdp/nodes/sfa_nodes_online.py
index 61adb08..30797ed 100644
--- a/mdp/nodes/sfa_nodes_online.py
+++ b/mdp/nodes/sfa_nodes_online.py
@@ -146,7 +146,7 @@ class IncSFANode(mdp.OnlineNode):
         if self._init_sf is None:
             if self.remove_mean:
                 self._pseudo_check_fn(self.avgnode, x)
-            x = self.avgnode.execute(x)
+                x = self.avgnode.execute(x)
             self._pseudo_check_fn(self.whiteningnode, x)
             x = self.whiteningnode.execute(x)
             self._pseudo_check_fn(self.tdiffnode, x)
-- 
2.43.0


From 995ea1a223aa08cfaf03e15bac1460f9a2ff0456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 60/76] fix: CloneBiLayer can be inverted when node copies are
 used

---
 bimdp/hinet/bilayer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bimdp/hinet/bilayer.py b/bimdp/hinet/bilayer.py
index afe0484..a18f3c6 100644
--- a/bimdp/hinet/bilayer.py
+++ b/bimdp/hinet/bilayer.py
@@ -148,6 +148,15 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
         else:
             return y
 
+    def _inverse(self, x, *args, **kwargs):
+        """Invert the data with the internal nodes.
+
+        This override is required for use_copies, when there is no single node.
+        """
+        if self.use_copies:
+            return super(mdp.hinet.CloneLayer, self)._inverse(x, *args, **kwargs)
+        return super(CloneBiLayer, self)._inverse(x, *args, **kwargs)
+
     def _train(self, x, msg=None):
         """Perform single training step by training the internal nodes."""
         ## this code is mostly identical to the execute code,
-- 
2.43.0


From eeb072f509d5749f02f235cb699ade5b73ecf4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:23 +0000
Subject: [PATCH 61/76] fix: NetworkPPScheduler continues without slaves that
 could not be started

---
 mdp/parallel/pp_support.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mdp/parallel/pp_support.py b/mdp/parallel/pp_support.py
index 6ac7be4..94e1c4d 100644
--- a/mdp/parallel/pp_support.py
+++ b/mdp/parallel/pp_support.py
@@ -242,7 +242,7 @@ class NetworkPPScheduler(PPScheduler):
         """Start a single remote slave.
 
         The return value is a tuple of the ssh process handle and
-        the remote pid.
+        the remote pid, or (None, None) if the slave could not be started.
         """
         try:
             print("starting slave " + address + " ...")
@@ -282,7 +282,7 @@ class NetworkPPScheduler(PPScheduler):
         except:
             print("Initialization of slave %s has failed." % address)
             traceback.print_exc()
-            return None
+            return (None, None)
 
     def _start_slaves(self):
         """Start remote slaves.
@@ -296,9 +296,10 @@ class NetworkPPScheduler(PPScheduler):
             self._ssh_procs = []
             for (address, ncpus) in self._remote_slaves:
                 ssh_proc, pid = self.start_slave(address, ncpus=ncpus)
-                if pid is not None:
-                    slave_kill_file.write("%s:%d:%d\n" %
-                                          (address, pid, ssh_proc.pid))
+                if pid is None:
+                    continue
+                slave_kill_file.write("%s:%d:%d\n" %
+                                      (address, pid, ssh_proc.pid))
                 self._running_remote_slaves.append(address)
                 self._remote_pids.append(pid)
                 self._ssh_procs.append(ssh_proc)
-- 
2.43.0


From 85ae36644fc2963014d7b2dacfbf37db72c1fce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:58 +0000
Subject: [PATCH 62/76] fix: IncSFANode can be inverted with remove_mean=False

---
 mdp/nodes/sfa_nodes_online.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/sfa_nodes_online.py b/mdp/nodes/sfa_nodes_online.py
index 30797ed..2757d43 100644
--- a/mdp/nodes/sfa_nodes_online.py
+++ b/mdp/nodes/sfa_nodes_online.py
@@ -235,7 +235,10 @@ class IncSFANode(mdp.OnlineNode):
 
         :return: The inverse of the slow feature response.
         """
-        return mult(y, pinv(self.sf)) + self.avgnode.avg
+        x = mult(y, pinv(self.sf))
+        if self.remove_mean:
+            x = x + self.avgnode.avg
+        return x
 
     def __repr__(self):
         """Print all args.
-- 
2.43.0


From 9dddc75ef12acf293136cc26be9f85f6d1c33d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:48 +0000
Subject: [PATCH 63/76] fix: a failed parallel run leaves no results in the
 scheduler

---
 bimdp/parallel/parallelbiflow.py |  6 ++++++
 mdp/parallel/__init__.py         |  2 +-
 mdp/parallel/parallelflows.py    | 18 ++++++++++++++++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 7123628..6ba0c78 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -236,6 +236,9 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                                             parallel.TrainResultContainer))):
                             scheduler.result_container = \
                                             parallel.TrainResultContainer()
+            except BaseException:
+                parallel._discard_results(scheduler)
+                raise
             finally:
                 # reset remaining iterator references, which cannot be pickled
                 self._train_data_iterator = None
@@ -475,6 +478,9 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 task = self.get_task()
                 scheduler.add_task(*task)
             result = self.use_results(scheduler.get_results())
+        except BaseException:
+            parallel._discard_results(scheduler)
+            raise
         finally:
             # reset remaining iterator references, which cannot be pickled
             self._exec_data_iterator = None
diff --git a/mdp/parallel/__init__.py b/mdp/parallel/__init__.py
index adcd44d..098772a 100644
--- a/mdp/parallel/__init__.py
+++ b/mdp/parallel/__init__.py
@@ -36,7 +36,7 @@ from .parallelclassifiers import (
     ParallelKNNClassifier
 )
 from .parallelflows import (
-    _purge_flownode, FlowTaskCallable, FlowTrainCallable, FlowExecuteCallable,
+    _purge_flownode, _discard_results, FlowTaskCallable, FlowTrainCallable, FlowExecuteCallable,
     TrainResultContainer, ExecuteResultContainer,
     ParallelFlowException, NoTaskException,
     ParallelFlow, ParallelCheckpointFlow
diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index cc176b2..4e8a1c8 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -223,6 +223,18 @@ class NoTaskException(ParallelFlowException):
     pass
 
 
+def _discard_results(scheduler):
+    """Drop the tasks and results of a failed run from the scheduler.
+
+    Otherwise they would be mixed up with the results of the next run.
+    """
+    if isinstance(scheduler, Scheduler):
+        try:
+            scheduler.get_results()
+        except Exception:
+            pass
+
+
 class ParallelFlow(mdp.Flow):
     """A parallel flow provides the methods for parallel training / execution.
 
@@ -376,6 +388,9 @@ class ParallelFlow(mdp.Flow):
                             (not isinstance(scheduler.result_container,
                                             TrainResultContainer))):
                             scheduler.result_container = TrainResultContainer()
+            except BaseException:
+                _discard_results(scheduler)
+                raise
             finally:
                 # reset iterable references, which cannot be pickled
                 self._train_data_iterables = None
@@ -585,6 +600,9 @@ class ParallelFlow(mdp.Flow):
                 task = self.get_task()
                 scheduler.add_task(*task)
             result = self.use_results(scheduler.get_results())
+        except BaseException:
+            _discard_results(scheduler)
+            raise
         finally:
             # reset remaining iterator references, which cannot be pickled
             self._exec_data_iterator = None
-- 
2.43.0


From 75fc9aaf2d24c8862791cd374f16cf0fe5675ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:48 +0000
Subject: [PATCH 64/76] fix: saving with protocol 0 opens the file in binary
 mode

---
 mdp/linear_flows.py     | 15 +++++----------
 mdp/nodes/misc_nodes.py |  5 ++---
 mdp/signal_node.py      |  5 ++---
 3 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index bb869e4..0c734d7 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -438,9 +438,8 @@ class Flow(object):
         if filename is None:
             return _cPickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'w' if protocol == 0 else 'wb'
-            with open(filename, mode) as flh:
+            # pickle writes bytes, whatever the protocol
+            with open(filename, 'wb') as flh:
                 _cPickle.dump(self, flh, protocol)
 
     def __call__(self, iterable, nodenr=None):
@@ -669,19 +668,15 @@ class CheckpointSaveFunction(CheckpointFunction):
                            closing the training phase
                            if set to 1 the training phase is closed and then
                            the node is dumped
-        'binary'        -- sets binary mode for opening the file.
-                           When using a protocol higher than 0, make sure
-                           the file is opened in binary mode.
+        'binary'        -- ignored: pickle writes bytes whatever the protocol,
+                           so that the file is always opened in binary mode.
         'protocol'      -- is the 'protocol' argument for the pickle dump
                            (see Pickle documentation for details)
         """
         self.filename = filename
         self.proto = protocol
         self.stop_training = stop_training
-        if binary or protocol > 0:
-            self.mode = 'wb'
-        else:
-            self.mode = 'w'
+        self.mode = 'wb'
 
     def __call__(self, node):
         with open(self.filename, self.mode) as fid:
diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index b73b0e6..031ad58 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -725,9 +725,8 @@ class NoiseNode(PreserveDimNode):
             # self.noise_func attribute.
             return real_pickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'w' if protocol == 0 else 'wb'
-            with open(filename, mode) as flh:
+            # pickle writes bytes, whatever the protocol
+            with open(filename, 'wb') as flh:
                 real_pickle.dump(self, flh, protocol)
 
 
diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 3cec90d..4aa9c18 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -721,9 +721,8 @@ class Node(with_metaclass(NodeMetaclass, object)):
         if filename is None:
             return _cPickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'wb' if protocol != 0 else 'w'
-            with open(filename, mode) as flh:
+            # pickle writes bytes, whatever the protocol
+            with open(filename, 'wb') as flh:
                 _cPickle.dump(self, flh, protocol)
 
 
-- 
2.43.0


From 2f92076ef8d3124289cf34f5f0d7478be07f7b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:48 +0000
Subject: [PATCH 65/76] fix: CheckpointSaveFunction keeps the earlier file when
 stop_training fails

---
 mdp/linear_flows.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index 0c734d7..48ec217 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -679,7 +679,8 @@ class CheckpointSaveFunction(CheckpointFunction):
         self.mode = 'wb'
 
     def __call__(self, node):
+        # a failing stop_training must not touch an earlier file
+        if self.stop_training:
+            node.stop_training()
         with open(self.filename, self.mode) as fid:
-            if self.stop_training:
-                node.stop_training()
             _cPickle.dump(node, fid, self.proto)
-- 
2.43.0


From 6a4ddd7083780124fabd27729076d014855e9dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:46 +0000
Subject: [PATCH 66/76] fix: a failing crash dump closes its file

---
 mdp/linear_flows.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index 48ec217..f78201b 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -51,8 +51,8 @@ class CrashRecoveryException(mdp.MDPException):
             fl = _os.fdopen(fd, 'w+b', -1)
         else:
             fl = open(filename, 'w+b', -1)
-        _cPickle.dump(self.crashing_obj, fl)
-        fl.close()
+        with fl:
+            _cPickle.dump(self.crashing_obj, fl)
         return filename
 
 
-- 
2.43.0


From b1cb6c5abe1be1322c2bb5927f35defe7b6a2680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:46 +0000
Subject: [PATCH 67/76] fix: show_execution closes the page it writes

---
 bimdp/inspection/facade.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bimdp/inspection/facade.py b/bimdp/inspection/facade.py
index 09882f0..755dda9 100644
--- a/bimdp/inspection/facade.py
+++ b/bimdp/inspection/facade.py
@@ -368,7 +368,6 @@ def show_execution(flow, x, msg=None, target=None, path=None, name=None,
                         **kwargs)
     # inspect execution created the path if required, so no need to check here
     with open(filename, 'w') as html_file:
-        html_file = open(filename, 'w')
         html_file.write('<html>\n<head>\n<title>%s</title>\n' % title)
         html_file.write('<style type="text/css" media="screen">')
         html_file.write(standard_css())
-- 
2.43.0


From a59050689c19479f4251f49566a79366fae10e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:46 +0000
Subject: [PATCH 68/76] fix: robust_write_file closes the file it writes

---
 bimdp/inspection/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bimdp/inspection/utils.py b/bimdp/inspection/utils.py
index 9cfd201..d691577 100644
--- a/bimdp/inspection/utils.py
+++ b/bimdp/inspection/utils.py
@@ -42,7 +42,8 @@ def robust_write_file(path, filename, content):
             new_file = open(os.path.join(path, filename), "w")
         else:
             raise
-    new_file.write(content)
+    with new_file:
+        new_file.write(content)
     return filename
 
 def first_iterable_elem(iterable):
-- 
2.43.0


From 41b001ee467125142d54cfecab05c9b51633aeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:24 +0000
Subject: [PATCH 69/76] fix: show_image_slideshow works without a filename

---
 mdp/utils/slideshow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdp/utils/slideshow.py b/mdp/utils/slideshow.py
index f47aebd..2310b36 100644
--- a/mdp/utils/slideshow.py
+++ b/mdp/utils/slideshow.py
@@ -742,7 +742,8 @@ def show_image_slideshow(filenames, image_size, filename=None, title=None,
     For additional keyword arguments see the ImageHTMLSlideShow class.
     """
     if filename is None:
-        html_file = tempfile.NamedTemporaryFile(suffix=".html", prefix="MDP_")
+        html_file = tempfile.NamedTemporaryFile(mode='w', suffix=".html",
+                                                prefix="MDP_")
     else:
         html_file = open(filename, 'w')
     html_file.write('<html>\n<head>\n<title>%s</title>\n' % title)
@@ -757,6 +758,7 @@ def show_image_slideshow(filenames, image_size, filename=None, title=None,
     html_file.write('</body>\n</html>')
     html_file.flush()
 
+    filename = html_file.name
     if open_browser:
         if isinstance(open_browser, str):
             try:
-- 
2.43.0


From fd0b9cc379a0c1541bccd58f18c0fe1dde314aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:44 +0000
Subject: [PATCH 70/76] fix: the inspection writes its error slide

---
 bimdp/inspection/tracer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index c2d8093..2f40115 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -282,10 +282,10 @@ class InspectionHTMLTracer(object):
         html_file.close()
 
     def _write_error_frame(self):
-        with self._begin_HTML_frame() as html_file:
-            html_file.write('<div class="error">')
-            html_file.write('<h3>Encountered Exception</h3>')
-            traceback_html = traceback.format_exc().replace('\n', '<br>')
+        html_file = self._begin_HTML_frame()
+        html_file.write('<div class="error">')
+        html_file.write('<h3>Encountered Exception</h3>')
+        traceback_html = traceback.format_exc().replace('\n', '<br>')
 #        get HTML traceback, didn't work due to legacy stuff
 #        TODO: retry this in the future
 #        import StringIO as stringio
@@ -301,9 +301,9 @@ class InspectionHTMLTracer(object):
 #        handler = cgitb.Hook(file=buffer)
 #        handler.handle((exception_type, exception, tb))
 #        traceback_html = buffer.getvalue()
-            html_file.write(traceback_html)
-            html_file.write('</div>')
-            self._end_HTML_frame(html_file)
+        html_file.write(traceback_html)
+        html_file.write('</div>')
+        self._end_HTML_frame(html_file)
 
     ## monkey patching tracing decorator wrapper methods ##
 
-- 
2.43.0


From 4e74c4549987af7b0aeeee2ac276c5ce5aff6037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:08 +0000
Subject: [PATCH 71/76] fix: TDSEPNode passes its whitening parameters on

---
 mdp/nodes/ica_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/ica_nodes.py b/mdp/nodes/ica_nodes.py
index 7c5b8fa..bdbd81c 100644
--- a/mdp/nodes/ica_nodes.py
+++ b/mdp/nodes/ica_nodes.py
@@ -1096,7 +1096,7 @@ class TDSEPNode(ISFANode, ProjectMatrixMixin):
                                         icaweights=None, sfaweights=None,
                                         whitened=whitened,
                                         white_comp=white_comp,
-                                        white_parm = None,
+                                        white_parm=white_parm,
                                         eps_contrast=limit,
                                         max_iter=max_iter, RP=None,
                                         verbose=verbose,
-- 
2.43.0


From 1e1f7728af68eee42d7e34f6527f40e56faeb67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:08 +0000
Subject: [PATCH 72/76] fix: ParallelCheckpointBiFlow.train passes its stop
 messages on

---
 bimdp/parallel/parallelbiflow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 6ba0c78..8b1da8e 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -646,6 +646,7 @@ class ParallelCheckpointBiFlow(mdp.parallel.ParallelCheckpointFlow,
                         train_callable_class=train_callable_class,
                         overwrite_result_container=overwrite_result_container,
                         msg_iterables=msg_iterables,
+                        stop_messages=stop_messages,
                         **kwargs)
 
     def setup_parallel_training(self, data_iterables, checkpoints,
-- 
2.43.0


From b50e7df9e52b128ad182430b0b38234c16c664b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:25 +0000
Subject: [PATCH 73/76] fix: ParallelCheckpointBiFlow can be trained without a
 scheduler

---
 bimdp/parallel/parallelbiflow.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 8b1da8e..83ff7a8 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -164,8 +164,9 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 err = ("A train_callable_class was specified but no scheduler "
                        "was given, so the train_callable_class has no effect.")
                 raise ParallelBiFlowException(err)
-            super(ParallelBiFlow, self).train(data_iterables, msg_iterables,
-                                              stop_messages,
+            super(ParallelBiFlow, self).train(data_iterables,
+                                              msg_iterables=msg_iterables,
+                                              stop_messages=stop_messages,
                                               **kwargs)
         else:
             if train_callable_class is None:
-- 
2.43.0


From 86e37e52317e85c17132e589a634a3504e960f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:55 +0000
Subject: [PATCH 74/76] fix: ParallelBiFlow accepts a stop_training phase that
 reaches the end of the flow

---
 bimdp/parallel/parallelbiflow.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 83ff7a8..4a2162c 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -398,16 +398,22 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
         result = self._flownode.stop_training(
                                 self._get_stop_message())
         self._post_stop_training_hook()
-        if (result is not None) and (not isinstance(result, dict)):
-            if (isinstance(result, tuple) and
-                (result[2] in [1, -1, EXIT_TARGET])):
-                pass
-            else:
+        self._check_stop_training_result(result)
+        self._bi_reset()
+
+    def _check_stop_training_result(self, result):
+        """Complain if the target of the stop_training phase was not found.
+
+        Like in a normal BiFlow it is fine when the phase just reached the end
+        of the flow, so there is not always a target.
+        """
+        if isinstance(result, tuple) and len(result) == 3:
+            # values of +1, -1 and EXIT_TARGET are tolerated
+            if result[2] not in [1, -1, EXIT_TARGET]:
                 err = ("Target node not found in flow during " +
                        "stop_training phase, last result: " +
                        str(result))
                 raise BiFlowException(err)
-        self._bi_reset()
 
     def _create_train_task(self):
         """Create and return a single training task without callable.
@@ -568,14 +574,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             result = self._flownode.stop_training(
                                     self._get_stop_message())
             self._post_stop_training_hook()
-            if (result is not None):
-                target = result[2]
-                # values of +1, -1 and EXIT_TARGET are tolerated
-                if target not in [1, -1, EXIT_TARGET]:
-                    err = ("Target node not found in flow during " +
-                           "stop_training phase, last result: " +
-                           str(result))
-                    raise BiFlowException(err)
+            self._check_stop_training_result(result)
             self._flownode.bi_reset()
             if self.verbose:
                 print ("finished parallel training phase of node no. " +
-- 
2.43.0


From cb81f97d528e6cdd3d4f1ea9297e19bec6fe07f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:33 +0000
Subject: [PATCH 75/76] fix: BiFlowNode passes the stop message on to its last
 node

---
 bimdp/hinet/biflownode.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bimdp/hinet/biflownode.py b/bimdp/hinet/biflownode.py
index 78d2dd2..3a58637 100644
--- a/bimdp/hinet/biflownode.py
+++ b/bimdp/hinet/biflownode.py
@@ -205,6 +205,8 @@ class BiFlowNode(BiNode, hinet.FlowNode):
                 err = ("Node produced invalid return value " +
                        "for stop_training: " + str(result))
                 raise BiFlowException(err)
+            if target is None:
+                target = 1
             if isinstance(target, int):
                 i_node = nodenr + target
                 # values of +1 and -1 beyond this flow are allowed
@@ -226,8 +228,9 @@ class BiFlowNode(BiNode, hinet.FlowNode):
         """Return wrapper for stop_training to set BiFlowNode outputdim."""
         # We have to overwrite the version from FlowNode to take care of the
         # optional return value.
-        def _stop_training_wrapper(*args, **kwargs):
-            result = func(*args, **kwargs)
+        # The signature tells BiNode.stop_training to pass the message on.
+        def _stop_training_wrapper(msg=None):
+            result = func(msg)
             self.output_dim = node.output_dim
             return result
         return _stop_training_wrapper
-- 
2.43.0


From 6be3785604d6d373d7a397f2de67523e13fefa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:09 +0000
Subject: [PATCH 76/76] fix: inverse of the PCA and MCA nodes with n components

---
 mdp/nodes/mca_nodes_online.py | 2 +-
 mdp/nodes/pca_nodes.py        | 2 +-
 mdp/nodes/pca_nodes_online.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/mca_nodes_online.py b/mdp/nodes/mca_nodes_online.py
index bdcc48b..4b644d5 100755
--- a/mdp/nodes/mca_nodes_online.py
+++ b/mdp/nodes/mca_nodes_online.py
@@ -205,7 +205,7 @@ class MCANode(mdp.OnlineNode):
 
         v = self.get_recmatrix()
         if n is not None:
-            return mult(y, v[:n, :])
+            return mult(y[:, :n], v[:n, :])
         return mult(y, v)
 
     def __repr__(self):
diff --git a/mdp/nodes/pca_nodes.py b/mdp/nodes/pca_nodes.py
index d9ea36d..d3276df 100644
--- a/mdp/nodes/pca_nodes.py
+++ b/mdp/nodes/pca_nodes.py
@@ -368,7 +368,7 @@ class PCANode(mdp.Node):
 
         v = self.get_recmatrix()
         if n is not None:
-            return mult(y, v[:n, :]) + self.avg
+            return mult(y[:, :n], v[:n, :]) + self.avg
         return mult(y, v) + self.avg
 
 
diff --git a/mdp/nodes/pca_nodes_online.py b/mdp/nodes/pca_nodes_online.py
index 64b24e2..8cd2823 100755
--- a/mdp/nodes/pca_nodes_online.py
+++ b/mdp/nodes/pca_nodes_online.py
@@ -254,7 +254,7 @@ class CCIPCANode(mdp.OnlineNode):
 
         v = self.get_recmatrix()
         if n is not None:
-            return mult(y, v[:n, :])
+            return mult(y[:, :n], v[:n, :])
         return mult(y, v)
 
     def __repr__(self):
-- 
2.43.0

