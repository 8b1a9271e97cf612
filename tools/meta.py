#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N, J, T = 'meent/on_numpy/', 'meent/on_jax/', 'meent/on_torch/'


def three(p):
    return [N + p, J + p, T + p]


NOTEST = ('The repository tests of the solver are scripts that pass when they exit 0; they assert almost nothing about the numbers, '
          'and they run a handful of fixed devices. ')

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, spec, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None),
                  spec=spec, note=note))


prop('C01', 'Lossless gratings conserve energy',
     'For every device whose refractive indices are all real, the reflected and transmitted diffraction efficiencies over all orders add up to one, '
     'for any incidence angle below grazing, azimuth, polarisation, superstrate and substrate index, number of layers, truncation, Fourier series type and backend. '
     'The same holds for the TE-incidence and TM-incidence results that the conical and 2D solves report separately.',
     ['inputs', 'configurations'], 'every lossless device, illumination, truncation, Fourier series type and backend',
     NOTEST + 'Energy balance must hold for every device, not for those.',
     three('emsolver/transfer_method.py') + three('emsolver/rcwa.py') + three('emsolver/_base.py'),
     [('mode matching and efficiency normalisation', '*/emsolver/transfer_method.py'), ('in-plane wave vectors', '*/emsolver/_base.py get_kx_ky_vector')],
     ['efficiencies returned by a solve'], 'GenDevice/Device (assembly of a device) + C01Trace',
     'energy balance within 1e-7 on every generated device; devices with an order within 1 % of grazing are not generated')

prop('C02', 'Efficiencies are physical and sit at the order they belong to',
     'Every efficiency is finite and non-negative, reflection plus transmission never exceeds one when materials absorb, and an order that the grating '
     'equation makes evanescent in the half space it would leave into carries zero. The result arrays hold one entry per retained order, rows for y and '
     'columns for x, in ascending order from minus to plus the truncation, and each entry is the sum of its s and p parts.',
     ['inputs', 'configurations'], 'every passive device (lossless or absorbing layers and substrates), illumination, truncation and backend',
     NOTEST + 'Which order is evanescent depends on angle, azimuth, wavelength, both periods and both indices.',
     three('emsolver/transfer_method.py') + three('emsolver/_base.py'),
     [('branch of kz and real part in the efficiency', '*/emsolver/transfer_method.py'), ('order grid', '*/emsolver/_base.py get_kx_ky_vector')],
     ['efficiencies and result layout returned by a solve'], 'OrdersModel (exhaustive) + Device + C02Trace',
     'propagating orders decided by exact rational arithmetic in the specification')

prop('C03', 'The three backends return the same efficiencies',
     'The NumPy, JAX and PyTorch backends return the same reflected and transmitted efficiencies, order by order and split into s and p parts, for the same '
     'device and illumination, whatever the formulation, polarisation, Fourier series type or material loss.',
     ['inputs', 'configurations'], 'every device, illumination and pair of backends',
     NOTEST + 'No test compares backends on absorbing, oblique, multi-layer or mixed-polarisation devices.',
     three('emsolver/rcwa.py') + three('emsolver/transfer_method.py') + three('emsolver/convolution_matrix.py') + three('emsolver/fourier_analysis.py'),
     [('the same algorithm written three times', 'meent/on_numpy, meent/on_jax, meent/on_torch')],
     ['efficiencies returned by a solve'], 'Device + C03Trace', 'agreement within 1e-7')

prop('C04', 'Planar, conical and 2D formulations agree',
     'A device whose pattern does not vary along y gives the same efficiencies whether it is solved as a one-dimensional grating (with or without an azimuth '
     'given), as a two-dimensional cell with repeated rows, or with additional orders in y. Those additional orders carry nothing, and neither the period '
     'along y nor the number of repeated rows matters.',
     ['inputs', 'configurations'], 'every one-dimensional device, polarisation, azimuth and way of presenting it',
     NOTEST + 'The script comparing the formulations covers normal settings of one device and only prints.',
     three('emsolver/rcwa.py') + three('emsolver/transfer_method.py'),
     [('routing by cell shape, azimuth and polarisation', '*/emsolver/rcwa.py _assign_grating_type'), ('three transfer-matrix formulations', '*/emsolver/transfer_method.py')],
     ['efficiencies returned by a solve'], 'Routing (exhaustive) + Device + C04Trace', 'agreement within 1e-7 after the order embedding the specification defines')

prop('C05', 'A result depends only on the current settings, not on history',
     'The result of a solve or field calculation is a function of the settings currently assigned: any history of assignments, solves and field calculations on '
     'this or other solver objects, including switching between cell shapes, modelings, formulations and polarisations, gives what a newly built object with the '
     'same settings gives. Solving changes neither the arrays and lists the user passed in nor results returned earlier, and repeating a solve repeats its result exactly.',
     ['histories', 'inputs'], 'every interleaving of setter calls, solves and field calculations over several solver objects',
     'Tests build one object and solve it; they never reassign settings, interleave objects or compare with a fresh object.',
     three('emsolver/rcwa.py') + three('emsolver/_base.py') + three('modeler/modeling.py'),
     [('formulation re-derived before each solve', '*/emsolver/rcwa.py solve_for_conv'), ('per-solve caches reset', '*/emsolver/_base.py solve_*')],
     ['results of solves and field calculations', 'user-supplied inputs after a solve'], 'Session (exhaustive) + SessionGen + C05Trace',
     'sessions over two objects; equality with a fresh object within 1e-9, exact equality for repetition')

prop('C06', 'Polarisation settings mean what they say',
     'Setting the TM fraction p and setting the angle psi = 90 degrees x (1 - p) give the same result, 0 being pure TE and 1 pure TM, and the setting assigned last wins. '
     'Complex amplitudes for any polarisation are sin(psi) times the TE-incidence amplitudes plus cos(psi) times the TM-incidence ones, efficiencies scale with the squared '
     'amplitudes, and the TE- and TM-incidence results reported by any solve equal those of solves with that pure polarisation.',
     ['inputs', 'histories'], 'every device, polarisation value and order of polarisation assignments',
     NOTEST + 'No test uses a mixed polarisation with cross-coupling, nor compares the two ways of setting it.',
     three('emsolver/_base.py') + three('emsolver/transfer_method.py'),
     [('pol/psi setters', '*/emsolver/_base.py'), ('incident vector and TE/TM split', '*/emsolver/transfer_method.py transfer_*_4')],
     ['amplitudes and efficiencies returned by a solve', 'pol and psi attributes'], 'PolMachine (exhaustive) + Device + C06Trace', 'laws within 1e-8')

prop('C07', 'The same geometry gives the same answer however it is described',
     'A pixel map, the same map with every pixel repeated, and the same rectangles given as vector objects give identical efficiencies with the continuous Fourier series, '
     'including orientation: rows run from the largest y downwards and columns along increasing x. The discrete Fourier series converges to that answer as the sampling is refined.',
     ['inputs', 'configurations'], 'every pixel map, subdivision and vector description of it, on every backend',
     NOTEST + 'Descriptions are compared by eye for symmetric patterns only, so orientation and edge errors pass.',
     three('emsolver/convolution_matrix.py') + three('emsolver/fourier_analysis.py') + three('modeler/modeling.py'),
     [('cell compression', '*/emsolver/convolution_matrix.py cell_compression'), ('Fourier coefficients', '*/emsolver/fourier_analysis.py'), ('vector modeling', '*/modeler/modeling.py')],
     ['efficiencies returned by a solve'], 'Repr (exhaustive) + C07Trace', 'identity within 1e-7; the discrete series by Richardson extrapolation over two samplings')

prop('C08', 'Vector objects are painted in order and exactly',
     'In vector modeling later objects cover earlier ones, every point not covered keeps the base index, and objects may share edges, overlap, coincide or span the whole '
     'period: the result equals that of the pixel map painted the same way. A rectangle turned by a multiple of 90 degrees is the exactly turned rectangle; turned by any other '
     'angle it keeps its area, centre and bounding box and turns in the sense given, for every choice of slicing. An ellipse stays centred within its bounding box and '
     'its area approaches that of the ellipse as the slicing is refined.',
     ['inputs', 'programs'], 'every list of rectangles on a grid, every angle and slicing',
     NOTEST + 'Overlaps, coincident edges and unequal slicings are not tested.',
     three('modeler/modeling.py'), [('edge list and painting', '*/modeler/modeling.py vector_per_layer_numeric'), ('rectangle slicing', '*/modeler/modeling.py rectangle')],
     ['efficiencies returned by a solve', 'slabs returned for a rectangle'], 'Paint (exhaustive) + C08Trace', 'efficiencies within 1e-7 of the painted pixel map')

prop('C09', 'Homogeneous stacks follow exact thin-film optics',
     'A stack of homogeneous layers between two half spaces reflects and transmits, for TE and TM at any angle, exactly what the characteristic-admittance theory gives, '
     'including absorbing layers and substrates, total internal reflection and tunnelling, with everything in the zeroth order. Splitting a layer, inserting a layer of zero '
     'thickness or merging equal neighbours changes nothing for patterned layers either, and layers are ordered from the incidence side.',
     ['inputs', 'configurations'], 'every stack, angle, polarisation, formulation and backend',
     NOTEST + 'No test compares with an analytic result.',
     three('emsolver/transfer_method.py') + three('emsolver/_base.py'),
     [('layer recursion', '*/emsolver/transfer_method.py transfer_*_3'), ('layer order', '*/emsolver/_base.py solve_*')],
     ['efficiencies returned by a solve'], 'Slab (exhaustive, exact complex rational admittance walk) + C09Trace', 'R and T within 1e-7 of the exact value the specification computes')

prop('C10', 'Reconstructed fields satisfy the physics the efficiencies came from',
     'The field returned for a solved device is continuous in its tangential components across every layer interface, repeats over a period up to the Bloch phase, obeys '
     'Maxwell\'s equations between its components, and carries power order by order: incident minus reflected at the entry plane, the transmitted efficiency at the exit plane, '
     'the same total through every plane of a lossless device and never more further down. Its grid has the requested size, a value depends on the position only and not on the '
     'sampling, the configured wave is the stated mixture of the TE and TM waves, backends agree up to documented conventions, and the solve-and-field call returns what the two separate calls return.',
     ['inputs', 'configurations'], 'every device, polarisation, formulation, field resolution and backend',
     NOTEST + 'Field scripts only plot.',
     three('emsolver/field_distribution.py') + three('emsolver/rcwa.py'),
     [('field reconstruction', '*/emsolver/field_distribution.py')], ['field arrays'], 'FieldLaws/FieldModel (exhaustive, exact) + GenField + C10Trace', 'laws within 1e-7 for every retained order in every sampled plane')

prop('C11', 'Material lookup interpolates its table exactly',
     'Looking up a tabulated material, by name in any letter case, returns n - ik with n and k interpolated linearly between the neighbouring rows, the exact row at a tabulated '
     'wavelength and the end rows, with a warning, outside the table; the real-only form returns n alone. Every backend returns the same value, for scalars and arrays of wavelengths, '
     'and the listing reports each table with its true range.',
     ['inputs'], 'every table, wavelength and backend', 'Tests read a few shipped materials and do not compare with the tables.',
     three('modeler/modeling.py') + ['meent/dispersion.py'], [('lookup and clamping', '*/modeler/modeling.py find_nk_index'), ('table reader', '*/modeler/modeling.py read_material_table')],
     ['value and warning returned by a lookup'], 'NkTable (exhaustive) + C11Trace', 'exact rational interpolation in the specification, 1e-9')

prop('C12', 'Material ids are replaced by the index of the material they name',
     'Filling a cell of material numbers puts at every position the index of the material with that number, whether the material is given as a value, a name or a fitted model, '
     'leaves the id map unchanged, and every position is decided on its own.',
     ['inputs'], 'every id map, material list and wavelength', 'No test checks the filled cell.',
     [N + 'modeler/modeling.py', T + 'modeler/modeling.py'], [('id replacement', '*/modeler/modeling.py put_refractive_index_in_ucell')], ['filled cell'],
     'Fill (exhaustive) + C12Trace', 'exact per position')

prop('C13', 'Gradients and optimiser steps are those of the loss',
     'The gradient reported for a setting is the derivative of the loss at the current settings, on JAX and PyTorch alike, for every call and without traces of earlier calls. '
     'Fitting for k iterations with a plain gradient step leaves and returns exactly the settings reached by k such steps.',
     ['inputs', 'histories'], 'every device, parameter, loss and number of iterations', 'Tests run optimisations without comparing any gradient with a difference quotient.',
     [J + 'optimizer/optimizer.py', T + 'optimizer/optimizer.py', J + 'emsolver/primitives.py', T + 'emsolver/primitives.py'],
     [('grad and fit', '*/optimizer/optimizer.py'), ('eigen-decomposition backward pass', '*/emsolver/primitives.py')], ['gradients and fitted settings'],
     'Descent (exhaustive, dyadic) + C13Trace', 'against central differences evaluated in the specification')

prop('C14', 'Settings are normalised alike and bad ones are rejected without effect',
     'Every documented way of writing a setting (number, list, tuple or array; one period or two; one or two truncation orders; angles of zero) means the same on every backend and gives '
     'the same result. A value outside the allowed domain (a share of TM light outside 0 to 1, a truncation of other than one or two orders, a value of a kind the setting does not take, '
     'an unknown precision or backend) raises an error at once, and the object then still holds and solves with its previous settings.',
     ['inputs', 'histories'], 'every spelling of every setting, every invalid value, at every point of a session', 'Tests use one spelling and no invalid value.',
     three('emsolver/_base.py') + three('emsolver/rcwa.py') + ['meent/main.py'], [('setters', '*/emsolver/_base.py'), ('cell setter', '*/emsolver/rcwa.py')],
     ['attribute values', 'exceptions', 'results'], 'Settings (exhaustive) + C14Trace', 'bounded menu of spellings and invalid values')

prop('C15', 'Efficiencies respect the symmetries of the problem',
     'Shifting the pattern by whole pixels, mirroring device and illumination together at an axis (or both: a half turn), exchanging x and y for devices whose layers each vary along '
     'one axis, scaling all lengths together, describing several periods as one cell (continuous series), and any sequence of such steps change the efficiencies only by the '
     'corresponding relabelling of orders, with s and p parts kept. Exchanging incidence and exit channel leaves the channel efficiency unchanged for the zeroth transmitted order.',
     ['inputs', 'histories'], 'every device and every sequence of symmetry operations', NOTEST + 'No symmetry is asserted.',
     three('emsolver/transfer_method.py') + three('emsolver/convolution_matrix.py') + three('emsolver/fourier_analysis.py') + three('emsolver/_base.py'),
     [('order grid, cell orientation and Fourier phases', '*/emsolver')], ['efficiencies returned by a solve'], 'Symmetry (exhaustive group laws) + C15Trace', 'relabelled equality within 1e-7')

prop('C16', 'Fitted dispersion models evaluate their published formulas',
     'A material stored as a fit evaluates exactly the published formula with its coefficients at every wavelength, identically on all backends, with the absorbing sign where the model absorbs, '
     'a real value where only n is asked for, and a warning outside its range. Malformed fit files and unphysical conductivity-model parameters are rejected.',
     ['inputs'], 'every model, coefficient set and wavelength', 'Tests do not evaluate the formulas.',
     ['meent/dispersion.py'] + three('modeler/modeling.py'), [('formula evaluation', 'meent/dispersion.py evaluate'), ('header parser', 'meent/dispersion.py parse_header')],
     ['value returned by a lookup'], 'Dispersion + C16Trace', 'rational/45-digit evaluation in the specification, 1e-9')

prop('C17', 'Single precision gives the same physics',
     'Choosing single precision changes results only by rounding: efficiencies agree with the double-precision ones to single-precision accuracy on every backend, arrays come back in the '
     'chosen precision, and changing the precision of an existing object equals building it so, up to the rounding its settings have already undergone.',
     ['inputs', 'histories'], 'every well-conditioned device, backend and moment of choosing the precision', 'Tests use double precision only.',
     three('emsolver/_base.py') + three('emsolver/rcwa.py') + three('emsolver/transfer_method.py'), [('type handling', '*/emsolver/_base.py type_complex')],
     ['efficiencies and their precision'], 'Precision (exhaustive) + GenPrecision/Device + C17Trace', 'agreement within 1e-3 in single precision, 1e-9 in double; devices whose modes coincide (single precision cannot separate them) are not generated')

prop('C18', 'Anisotropic layers act axis by axis',
     'On the PyTorch backend a layer given by three indices per pixel behaves as an isotropic one when the three are equal, conserves energy when they are real, turns with the device (x and y '
     'indices exchanged under a quarter turn), and in planar incidence TE light sees only the y index and TM light only the x and z indices. A homogeneous anisotropic film follows exact thin-film optics.',
     ['inputs'], 'every diagonal anisotropic device', 'The anisotropy scripts cover one device and print.',
     [T + 'emsolver/rcwa.py', T + 'emsolver/convolution_matrix.py', T + 'modeler/modeling.py'],
     [('per-axis convolution matrices', 'meent/on_torch/emsolver/convolution_matrix.py'), ('anisotropic routing', 'meent/on_torch/emsolver/rcwa.py')],
     ['efficiencies returned by a solve'], 'Aniso + C18Trace', 'laws within 1e-7')

prop('C19', 'Complex amplitudes keep one convention',
     'The complex reflection and transmission amplitudes of every order mean the same thing throughout, up to one fixed normalisation per backend and formulation: NumPy and JAX agree, PyTorch '
     'agrees up to its documented time convention, axis facing and units, the planar, conical and 2D solves of one device agree, moving the pattern by whole pixels multiplies the '
     'amplitude of order m by the phase of that move and nothing else, and for homogeneous layers they are the exact Fresnel amplitudes, in modulus and phase, reflected and transmitted alike; those of the configured wave are the stated mixture of the TE- and TM-incidence ones.',
     ['inputs', 'configurations'], 'every device, illumination, formulation, pattern shift and backend',
     NOTEST + 'Efficiencies hide every phase error, so no script can notice a conjugated or flipped amplitude.',
     three('emsolver/transfer_method.py') + three('emsolver/_base.py'),
     [('amplitudes and their conventions', '*/emsolver/transfer_method.py transfer_*_4')], ['R_s, R_p, T_s, T_p of a result'],
     'Amplitude/AmpModel (exhaustive) + GenAmp + C19Trace', 'normal-form equality within 1e-7')


def main():
    built = [p for p in P if os.path.exists(f"{ROOT}/harness/props/{p['id'].lower()}.py")]
    with open(f'{ROOT}/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    man = dict(version=1, setup_cmd='bash bin/setup.sh', checks=[], not_applicable=[])
    for p in P:
        if p in built:
            man['checks'].append(dict(property=p['id'], quick_cmd=f"bin/check {p['id']} quick", thorough_cmd=f"bin/check {p['id']} thorough",
                                      technique='TLA+ specification checked with TLC; TLC-generated behaviours replayed into meent and the recorded traces validated against the specification',
                                      level='model_checking',
                                      level_note=f"{p['spec']}: {p['note']}. Generated behaviours are seeded samples of an infinite input space; trusted: TLC, the BigRat override, the replay adaptor."))
        else:
            man['not_applicable'].append(dict(property=p['id'], reason='check not built yet'))
    man['notes'] = 'Language: TLA+ with TLC. See DESIGN.md. No hooks in /repo: the public API exposes all state the specification needs.'
    json.dump(man, open(f'{ROOT}/MANIFEST.json', 'w'), indent=1)


if __name__ == '__main__':
    main()
