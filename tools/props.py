#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
S = 'orocos_kdl/src/'
W = lambda w: w if w.startswith('python') else S + w
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[W(f) for f in files], state=[dict(name=n, meaning=m, where=W(w)) for n, m, w in state],
                     mechanism=[dict(name=n, where=W(w)) for n, w in mech], observe_at=list(observe), hook_needed=hook)))
H, FS, IN, SC, CP, CF, PR = 'histories', 'fault_sequences', 'inputs', 'schedules', 'crash_points', 'configurations', 'programs'

prop('K01', 'Chain poses, twists and Jacobians never depend on what happened before',
  'After any history of calls by any number of interleaved callers on one chain - answered, refused, made with non-finite joint values, with joints locked or unlocked, with the chain edited or extended in between - every accepted call returns the pose, twist or Jacobian that the chain as it is now has at exactly the joint values given, for the whole chain or the requested leading part of it. '
  'The Jacobian is expressed in the base frame with its reference point at the end of the requested part; joints beyond that part, and locked joints, contribute nothing, and the columns of the unlocked joints are packed in joint order. '
  'A call with arrays of the wrong size or a part that does not exist is refused with a negative code.',
  [H, FS, IN], 'all call histories over all chains and joint types, including faulty calls and edits between calls',
  'tests call each solver on a handful of fixed robots, once per object, and never after a refused call, a non-finite input or an edit of the chain',
  ['chainfksolverpos_recursive.cpp', 'chainfksolvervel_recursive.cpp', 'chainjnttojacsolver.cpp', 'joint.cpp', 'segment.cpp', 'chain.cpp', 'jacobian.cpp', 'framevel.inl'],
  [('JntToCart', 'chainfksolverpos_recursive.cpp'), ('JntToJac', 'chainjnttojacsolver.cpp'), ('Segment::pose and Segment::twist', 'segment.cpp')],
  [('locked_joints_', 'which joints are held', 'chainjnttojacsolver.hpp'), ('t_tmp, T_tmp', 'scratch kept between calls', 'chainjnttojacsolver.hpp')],
  ['return codes and output arguments of the three solvers'])

prop('K02', 'The Jacobian time derivative is right in every representation after any history',
  'After any history of calls, refusals, representation changes and lock changes, an accepted request for the time derivative of the Jacobian returns the derivative of the Jacobian along the given joint velocities, for the hybrid, body-fixed and inertial representation and for any leading part of the chain. '
  'Locked joints have no column in the result and their velocity does not count; the product form returns the same derivative multiplied by the joint velocities, or refuses.',
  [H, FS, IN], 'all histories of calls, lock and representation changes over all chains, positions and velocities',
  'the tests compare with finite differences on a few fixed chains with no locked joints and one request per solver',
  ['chainjnttojacdotsolver.cpp', 'jacobian.cpp'],
  [('getPartialDerivative*', 'chainjnttojacdotsolver.cpp'), ('setLockedJoints, setRepresentation', 'chainjnttojacdotsolver.cpp')],
  [('jac_dot_k_', 'accumulator that must be clear before each column', 'chainjnttojacdotsolver.hpp'), ('locked_joints_, nr_of_unlocked_joints_', 'held joints', 'chainjnttojacdotsolver.hpp')],
  ['the derivative returned'])

prop('K03', 'Stale solvers refuse; updated solvers behave like newly built ones',
  'Once a chain has gained or lost joints or segments, a chain solver that keeps sizes of it refuses every solving call with the not-up-to-date code, without touching memory that is not its own, until it is told to update. '
  'From the update on, it accepts the sizes of the chain as it is now and answers as a newly built solver with the same settings would, however often the chain is changed again.',
  [H, FS, IN], 'all chain solvers (kinematics, inverse kinematics, dynamics, hybrid dynamics, estimation) and all interleavings of chain edits, updates and calls',
  'one test walks one chain through one growth; no test compares the updated solver with a new one, shrinks a chain, or updates twice',
  ['solveri.hpp', 'chainiksolverpos_nr.cpp', 'chainiksolverpos_nr_jl.cpp', 'chainiksolverpos_lma.cpp', 'chainiksolvervel_pinv.cpp', 'chainiksolvervel_pinv_givens.cpp', 'chainiksolvervel_pinv_nso.cpp', 'chainiksolvervel_wdls.cpp', 'chaindynparam.cpp', 'chainidsolver_recursive_newton_euler.cpp', 'chainfdsolver_recursive_newton_euler.cpp', 'chainhdsolver_vereshchagin.cpp', 'chainjnttojacsolver.cpp', 'chainjnttojacdotsolver.cpp', 'chainexternalwrenchestimator.cpp'],
  [('updateInternalDataStructures of every solver', 'solveri.hpp')],
  [('nj, ns', 'sizes remembered by each solver', 'chainiksolverpos_nr.hpp')],
  ['return codes; results of the updated solver against a new one'])

prop('K04', 'Refused calls report honestly and leave no trace',
  'A chain solver call whose arrays do not match the chain, or whose requested part does not exist, returns a negative code and never reads or writes outside the arrays it was given. '
  'The last-error query of a solver always returns the code that its most recent solving or setting call returned, every code it returns has a description of its own, and a refused call changes no later answer.',
  [H, FS, IN], 'every argument of every chain solver being the wrong one, in any order between good calls',
  'tests try one wrong size per solver in one position and never look at what follows a refusal',
  ['solveri.hpp', 'chainfksolverpos_recursive.cpp', 'chainfksolvervel_recursive.cpp', 'chaindynparam.cpp', 'chainiksolvervel_pinv_nso.cpp', 'chainiksolvervel_wdls.cpp', 'chainiksolverpos_nr_jl.cpp', 'chainhdsolver_vereshchagin.cpp', 'chainfdsolver_recursive_newton_euler.cpp', 'chainidsolver_recursive_newton_euler.cpp', 'chainexternalwrenchestimator.cpp', 'chainjnttojacdotsolver.cpp'],
  [('size checks at the head of every solving call', 'chainidsolver_recursive_newton_euler.cpp')],
  [('error', 'last code', 'solveri.hpp')], ['return codes, getError, strError'])
json_path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
if __name__ == '__main__':
    exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props2.py')).read())
    with open(json_path, 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
