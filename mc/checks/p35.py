"""P35: every configurable object survives serialization with all of its public settings."""
import itertools

import h5py
import numpy as np

import hermespy.beamforming as bf
import hermespy.channel as ch
import hermespy.core as co
import hermespy.fec as fec
import hermespy.hardware_loop as hl
import hermespy.jcas as jc
import hermespy.modem as mo
import hermespy.radar as ra
import hermespy.simulation as si
from hermespy.core import Factory, Transformation
from hermespy.modem.precoding.dft import DFTNorm
from hermespy.core.factory import HDFDeserializationProcess, HDFSerializationProcess
from ..core import expect
from ..observe import difference, observe

FACTORY = Factory()
_N = [0]


def roundtrip(obj):
    _N[0] += 1
    with h5py.File("mc-%d.h5" % _N[0], "w", driver="core", backing_store=False) as f:
        p = HDFSerializationProcess.New(FACTORY.tag_registry, f)
        p.serialize_object(obj, "object")
        q = HDFDeserializationProcess.New(FACTORY.tag_registry, f)
        return q.deserialize_object("object", type(obj))


def pose(k=1):
    return Transformation.From_RPY(np.array([0.1 * k, -0.2, 0.3]), np.array([1.0 * k, 2.0, -3.0]))


class Later:
    """A value created anew for every case."""

    def __init__(self, fn):
        self.fn = fn

    def __repr__(self):
        return "<built>"


L = Later


def V(x):
    return x.fn() if isinstance(x, Later) else x


SYM = np.array([[[1 + 1j, 2 - 1j, 0.5]], [[0.25j, -1, 3]]])


def signal(n=5, streams=2, **kw):
    m = (np.arange(n * streams).reshape(streams, n) + 1) * (1 - 0.5j)
    a = dict(sampling_rate=4.0, carrier_frequency=8.0, noise_power=0.25, delay=1.5)
    a.update(kw)
    return co.DenseSignal.FromNDArray(m.astype(complex), **a)


def sparse():
    m = np.zeros((2, 12), complex)
    m[:, 2:4] = 1 + 1j
    m[1, 8] = 2
    return co.SparseSignal(m, 4.0, 8.0, 0.25, 1.5)


def symbols(k=1):
    return mo.Symbols(SYM * k)


# class -> {parameter: alternatives besides leaving it at the default}; the first parameter tuple lists required ones
CATALOG: list = []


def C(name, make, required=None, setters=None, **optional):
    CATALOG.append((name, make, required or {}, optional, setters or {}))


def simulated_array():
    return si.SimulatedUniformArray(si.SimulatedIdealAntenna, 0.5, [2, 1, 1])


TX = L(lambda: mo.TransmittingModem(carrier_frequency=1e9))
RX = L(lambda: mo.ReceivingModem(carrier_frequency=2e9))

# -- antennas ---------------------------------------------------------------------------
MODE = [co.AntennaMode.TX, co.AntennaMode.RX]
POSE = [L(pose)]
for n in ("IdealAntenna", "PatchAntenna", "Dipole"):
    C(n, getattr(co, n), mode=MODE, pose=POSE)
    C("Simulated" + n, getattr(si, "Simulated" + n), mode=MODE, pose=POSE, weight=[0.5 - 1j])
C("LinearAntenna", co.LinearAntenna, mode=MODE, pose=POSE, slant=[0.7])
C("SimulatedLinearAntenna", si.SimulatedLinearAntenna, mode=MODE, pose=POSE, slant=[0.7], weight=[0.5 - 1j])
C("UniformArray", co.UniformArray, dict(element=[co.IdealAntenna, L(lambda: co.LinearAntenna(co.AntennaMode.DUPLEX, 0.4))], spacing=[0.25, 1.5], dimensions=[(2, 1, 1), (1, 2, 3)]), pose=POSE)
C("SimulatedUniformArray", si.SimulatedUniformArray, dict(element=[si.SimulatedIdealAntenna, L(lambda: si.SimulatedLinearAntenna(slant=0.4, weight=2j))], spacing=[0.25, 1.5], dimensions=[(2, 1, 1), (1, 2, 3)]), pose=POSE)
C("CustomArray", co.CustomAntennaArray, antennas=[L(lambda: [co.IdealAntenna(), co.LinearAntenna(slant=0.2, pose=pose(2))])], pose=POSE)
C("SimulatedCustomArray", si.SimulatedCustomArray, ports=[L(lambda: [si.SimulatedIdealAntenna(co.AntennaMode.RX, weight=1j), si.SimulatedLinearAntenna(slant=0.2, pose=pose(2))])], pose=POSE)
# -- kinematics -------------------------------------------------------------------------
C("Transformation", lambda k: pose(k), dict(k=[0, 1, 2]))
C("LinearTrajectory", si.LinearTrajectory, dict(initial_pose=POSE, final_pose=[L(lambda: pose(2))], duration=[2.0, 3.5]), start=[1.25])
C("StaticTrajectory", si.StaticTrajectory, pose=POSE, velocity=[L(lambda: np.array([1.0, 2, 3]))])
# -- signals, symbols and information -----------------------------------------------------
C("DenseSignal", signal, n=[1, 7], streams=[1, 3], carrier_frequency=[0.0, 7.0], noise_power=[0.0], delay=[0.0])
C("SparseSignal", sparse)
C("Symbols", symbols, k=[2, 0])
C("StatedSymbols", lambda k=1: mo.StatedSymbols(SYM * k, (np.arange(12).reshape(2, 2, 1, 3) - 1j) * k), k=[2])
C("ImpulseCSI", lambda k=1: co.ChannelStateInformation(co.ChannelStateFormat.IMPULSE_RESPONSE, np.arange(24).reshape(2, 1, 3, 4) * (k + 0.5j)), k=[2])
C("FrequencyCSI", lambda k=1: co.ChannelStateInformation(co.ChannelStateFormat.FREQUENCY_SELECTIVITY, np.arange(24).reshape(2, 1, 3, 4) * (k + 0.5j), num_delay_taps=3), k=[2])
# -- coding -------------------------------------------------------------------------------
bits = lambda n, k=3: (np.arange(n) % k == 0).astype(int)  # noqa: E731
C("RepetitionEncoder", fec.RepetitionEncoder, bit_block_size=[7], repetitions=[5])
C("BlockInterleaver", fec.BlockInterleaver, dict(block_size=[12, 24], interleave_blocks=[2, 3]))
C("CRC", fec.CyclicRedundancyCheck, dict(bit_block_size=[12, 24], check_block_size=[0, 3]))
C("Scrambler3GPP", fec.Scrambler3GPP, seed=[L(lambda: bits(31))])
C("Scrambler80211a", fec.Scrambler80211a, seed=[L(lambda: bits(7))])


def manager(allow_padding=True, allow_truncating=True, encoders=(), disabled=False):
    m = fec.EncoderManager(allow_padding, allow_truncating)
    for e in encoders:
        m.add_encoder(e)
    if disabled:
        m.encoders[0].enabled = False
    return m


C("EncoderManager", manager, dict(encoders=[(), L(lambda: [fec.RepetitionEncoder(4, 3), fec.BlockInterleaver(12, 3)])]), allow_padding=[False], allow_truncating=[False])
def chain(coding, steps):
    for k, s in enumerate(steps):
        coding[k] = s
    return coding


# -- precoding ------------------------------------------------------------------------------
C("DFT", mo.DFT, fft_norm=[DFTNorm.FORWARD, DFTNorm.BACKWARD])
for n in ("Alamouti", "Ganesan", "MaximumRatioCombining", "SingleCarrier"):
    C(n, getattr(mo, n))
C("TransmitSymbolCoding", lambda e=(): chain(mo.TransmitSymbolCoding(), e), e=[L(lambda: [mo.DFT(), mo.Alamouti()]), L(lambda: [mo.Alamouti(), mo.DFT(DFTNorm.FORWARD)])])
C("ReceiveSymbolCoding", lambda e=(): chain(mo.ReceiveSymbolCoding(), e), e=[L(lambda: [mo.DFT(), mo.Alamouti()]), L(lambda: [mo.MaximumRatioCombining(), mo.DFT(DFTNorm.FORWARD)])])
C("TransmitSignalCoding", lambda e=(): chain(co.TransmitSignalCoding(), e), e=[L(lambda: [bf.ConventionalBeamformer()]), L(lambda: [hl.IQSplitter(), bf.NullSteeringBeamformer()])])
C("ReceiveSignalCoding", lambda e=(): chain(co.ReceiveSignalCoding(), e), e=[L(lambda: [bf.CaponBeamformer(0.5)]), L(lambda: [hl.IQCombiner(), bf.ConventionalBeamformer()])])
# -- beamforming ------------------------------------------------------------------------------
C("SphericalFocus", lambda a, z: bf.SphericalFocus(a, z), dict(a=[0.1, 1.0], z=[0.3, 2.0]))
C("CoordinateFocus", bf.CoordinateFocus, dict(coordinates=[L(lambda: np.array([1.0, -2, 3]))]), reference=["global"])


def beamformer(cls, kind, args):
    b = cls(*args)
    f = bf.SphericalFocus(0.2, 0.4)
    for k in kind:
        if k == "t" and hasattr(b, "transmit_focus"):
            b.transmit_focus = [f] * b.num_transmit_focus_points
        if k == "r" and hasattr(b, "receive_focus"):
            b.receive_focus = [f] * b.num_receive_focus_points
        if k == "p" and hasattr(b, "probe_focus_points"):
            b.probe_focus_points = np.array([[[0.1, 0.2]] * b.num_receive_focus_points, [[0.3, 0.4]] * b.num_receive_focus_points])
    return b


for n, a in (("CaponBeamformer", (0.5,)), ("ConventionalBeamformer", ()), ("NullSteeringBeamformer", ())):
    C(n, lambda kind, cls=getattr(bf, n), a=a: beamformer(cls, kind, a), dict(kind=["", "t", "r", "p", "trp"]))
# -- radar ------------------------------------------------------------------------------------
C("FMCW", ra.FMCW, num_chirps=[3], chirp_duration=[2e-6], pulse_rep_interval=[4e-6], adc_sampling_rate=[5e8])
C("PointDetection", ra.PointDetection, dict(position=[L(lambda: np.array([1.0, 2, 3]))], velocity=[L(lambda: np.array([0.0, 1, -3]))], power=[0.5, 2.0]))


def cloud(max_range, n):
    c = ra.RadarPointCloud(max_range)
    for k in range(n):
        c.add_point(ra.PointDetection(np.array([k, 2.0, 3]), np.array([0.0, 1, k]), 1.0 + k))
    return c


C("RadarPointCloud", cloud, dict(max_range=[0.0, 7.5], n=[0, 1, 3]))
C("ThresholdDetector", ra.ThresholdDetector, dict(min_power=[0.25, 0.75]), normalize=[False], peak_detection=[False])
C("MaxDetector", ra.MaxDetector)
C("CFARDetector", ra.CFARDetector, dict(num_training_cells=[(2, 4)], num_guard_cells=[(0, 2), (2, 2)], pfa=[0.1, 0.3]))
C("RadarCube", ra.RadarCube, dict(data=[L(lambda: np.arange(12.0).reshape(2, 2, 3))], angle_bins=[L(lambda: np.array([[0.1, 0.2], [0.3, 0.4]]))], doppler_bins=[L(lambda: np.array([-1.0, 1.0]))]), range_bins=[L(lambda: np.array([0.0, 2.0, 4.0]))], carrier_frequency=[1e9])
C("Radar", ra.Radar, waveform=[L(lambda: ra.FMCW(num_chirps=3))], receive_beamformer=[L(bf.ConventionalBeamformer)], detector=[L(lambda: ra.ThresholdDetector(0.25))], min_range=[2.5], selected_transmit_ports=[[1, 0]], selected_receive_ports=[[2]], carrier_frequency=[3e9])
C("RadarTransmission", lambda: ra.RadarTransmission(signal()))
C("RadarReception", lambda c=None: ra.RadarReception(signal(), ra.RadarCube(np.arange(12.0).reshape(2, 2, 3), np.array([[0.1, 0.2], [0.3, 0.4]]), np.array([-1.0, 1.0]), np.array([0.0, 2.0, 4.0]), 1e9), c), c=[L(lambda: cloud(3.0, 2))])
# -- waveforms ----------------------------------------------------------------------------------
PILOT = [L(lambda: mo.CustomPilotSymbolSequence(np.array([1.0, 1j, -1]))), L(lambda: mo.UniformPilotSymbolSequence(0.5j))]
C("UniformPilotSymbolSequence", mo.UniformPilotSymbolSequence, pilot_symbol=[0.5 - 1j])
C("CustomPilotSymbolSequence", mo.CustomPilotSymbolSequence, dict(pilot_symbols=[L(lambda: np.array([1.0, 1j, -1]))]))
C("MappedPilotSymbolSequence", lambda order: mo.MappedPilotSymbolSequence(mo.PskQamMapping(order)), dict(order=[4, 16]))
SCK = dict(num_preamble_symbols=[3], num_data_symbols=[17], num_postamble_symbols=[4], pilot_rate=[5], guard_interval=[0.25], modulation_order=[4])
C("FilteredSCPilots", mo.RectangularWaveform, {}, pilot_symbol_sequence=PILOT, repeat_pilot_symbol_sequence=[False], num_preamble_symbols=[3])
C("RectangularWaveform", mo.RectangularWaveform, **SCK)
for n in ("RootRaisedCosineWaveform", "RaisedCosineWaveform"):
    C(n, getattr(mo, n), relative_bandwidth=[0.75], roll_off=[0.4], filter_length=[12], num_preamble_symbols=[3], num_data_symbols=[17], modulation_order=[4])
C("FMCWWaveform", mo.FMCWWaveform, dict(num_samples_per_chirp=[5, 7]), **{k: SCK[k] for k in ("num_preamble_symbols", "num_data_symbols", "modulation_order")})
for n in ("SingleCarrierCorrelationSynchronization",):
    C(n, getattr(mo, n), threshold=[0.5], guard_ratio=[0.25], peak_prominence=[0.125])
C("ChirpFSKWaveform", mo.ChirpFSKWaveform, chirp_duration=[2e-8, 1e-6], freq_difference=[1e6], num_pilot_chirps=[3], num_data_chirps=[5], guard_interval=[1e-3], modulation_order=[4])
for n, w in (("SC", mo.RootRaisedCosineWaveform), ):
    C("WaveformStages", lambda w=w, **k: w(**k), channel_estimation=[L(mo.SingleCarrierLeastSquaresChannelEstimation)], channel_equalization=[L(mo.SingleCarrierZeroForcingChannelEqualization), L(mo.SingleCarrierMinimumMeanSquareChannelEqualization)], synchronization=[L(lambda: mo.SingleCarrierCorrelationSynchronization(0.5, 0.25, 0.125))])
C("ChirpFSKSync", lambda **k: mo.ChirpFSKWaveform(**k), synchronization=[L(mo.ChirpFSKCorrelationSynchronization)])
C("GridElement", mo.GridElement, dict(type=["DATA", "REFERENCE", "NULL"]), repetitions=[3])
C("GridResource", mo.GridResource, repetitions=[3], prefix_type=[mo.PrefixType.ZEROPAD, mo.PrefixType.NONE, mo.PrefixType.CYCLIC], prefix_ratio=[0.25], elements=[L(lambda: [mo.GridElement("DATA", 3), mo.GridElement("REFERENCE")])])
C("SymbolSection", mo.SymbolSection, num_repetitions=[3], pattern=[[1, 0, 1]], sample_offset=[2])
C("GuardSection", mo.GuardSection, dict(duration=[1e-6, 2e-6]), num_repetitions=[3])


def resources():
    return [mo.GridResource(2, mo.PrefixType.CYCLIC, 0.25, [mo.GridElement("DATA", 3), mo.GridElement("REFERENCE")]), mo.GridResource(1, mo.PrefixType.ZEROPAD, 0.125, [mo.GridElement("DATA", 8)])]


def structure():
    return [mo.SymbolSection(2, [1, 0], 1), mo.GuardSection(1e-6, 2)]


GRID = dict(grid_resources=[L(resources)], grid_structure=[L(structure)])
C("OFDMWaveform", mo.OFDMWaveform, GRID, num_subcarriers=[16], dc_suppression=[False], pilot_section=[L(lambda: mo.SchmidlCoxPilotSection()), L(lambda: mo.PilotSection(symbols()))], pilot_sequence=PILOT, repeat_pilot_sequence=[False], modulation_order=[4])
C("OFDMStages", mo.OFDMWaveform, GRID, channel_estimation=[L(mo.OrthogonalLeastSquaresChannelEstimation)], channel_equalization=[L(mo.OrthogonalZeroForcingChannelEqualization)], synchronization=[L(mo.SchmidlCoxSynchronization), L(lambda: mo.OFDMCorrelationSynchronization(0.5, 0.25, 0.125))])
C("OCDMWaveform", mo.OCDMWaveform, dict(num_subcarriers=[16], **GRID), pilot_section=[L(lambda: mo.PilotSection(symbols()))], pilot_sequence=PILOT, modulation_order=[4])
C("OTFSWaveform", mo.OTFSWaveform, dict(num_subcarriers=[16], **GRID), pilot_section=[L(lambda: mo.PilotSection(symbols()))], pilot_sequence=PILOT, modulation_order=[4])
C("NRSlot", mo.NRSlot, num_resource_blocks=[30])
C("NRSubframe", mo.NRSubframe, dict(numerology=[0, 2]), num_resource_blocks=[30])
C("NRFrame", mo.NRFrame, dict(numerology=[0, 2]), num_resource_blocks=[30])
# -- modems ---------------------------------------------------------------------------------------
ENC = [L(lambda: [fec.RepetitionEncoder(4, 3), fec.BlockInterleaver(12, 3)])]
WAVE = [L(lambda: mo.RootRaisedCosineWaveform(roll_off=0.4, num_data_symbols=17))]
TSY, RSY = [L(lambda: [mo.DFT(), mo.Alamouti()])], [L(lambda: [mo.Alamouti(), mo.DFT()])]
TSI, RSI = [L(lambda: [bf.ConventionalBeamformer()])], [L(lambda: [bf.CaponBeamformer(0.5)])]
C("TransmittingModem", mo.TransmittingModem, selected_transmit_ports=[[1, 0]], carrier_frequency=[1e9], bits_source=[L(lambda: mo.RandomBitsSource(seed=7))], transmit_symbol_coding=TSY, transmit_signal_coding=TSI, encoding=ENC, waveform=WAVE)
C("ReceivingModem", mo.ReceivingModem, selected_receive_ports=[[1, 0]], carrier_frequency=[1e9], receive_symbol_coding=RSY, receive_signal_coding=RSI, encoding=ENC, waveform=WAVE)
C("DuplexModem", mo.DuplexModem, selected_transmit_ports=[[1, 0]], selected_receive_ports=[[2]], carrier_frequency=[1e9], transmit_symbol_coding=TSY, receive_symbol_coding=RSY, encoding=ENC, waveform=WAVE)
C("SimplexLink", mo.SimplexLink, selected_transmit_ports=[[1, 0]], selected_receive_ports=[[2]], carrier_frequency=[1e9], transmit_symbol_coding=TSY, receive_symbol_coding=RSY, encoding=ENC, waveform=WAVE)
C("NRSlotLink", mo.NRSlotLink, num_resource_blocks=[30], selected_transmit_ports=[[1, 0]], selected_receive_ports=[[2]], carrier_frequency=[1e9])
# -- evaluators -----------------------------------------------------------------------------------
SCALAR = dict(confidence=[0.5, 0.75], tolerance=[0.25], min_num_samples=[7], plot_scale=["linear", "log"], tick_format=[co.ValueType.DB], plot_surface=[False])
for n in ("BitErrorEvaluator", "BlockErrorEvaluator", "FrameErrorEvaluator", "ConstellationEVM"):
    C(n, lambda n=n, **k: getattr(mo, n)(mo.TransmittingModem(carrier_frequency=1e9), mo.ReceivingModem(carrier_frequency=2e9), **k), **SCALAR)


def throughput(plot_surface=True, **settings):
    e = mo.ThroughputEvaluator(mo.TransmittingModem(carrier_frequency=1e9), mo.ReceivingModem(carrier_frequency=2e9), plot_surface)
    for k, v in settings.items():
        setattr(e, k, v)
    return e


C("ThroughputEvaluator", throughput, **SCALAR)
C("DetectionProbEvaluator", lambda **k: ra.DetectionProbEvaluator(ra.Radar(ra.FMCW(num_chirps=3)), **k), **SCALAR)
for n in ("SI", "SSINR"):
    C(n, lambda n=n, **k: getattr(si, n)(si.SimulatedDevice(carrier_frequency=1e9), **k), **SCALAR)


def sidelobe(**k):
    d = si.SimulatedDevice(antennas=si.SimulatedUniformArray(si.SimulatedIdealAntenna, 0.5, (2, 1, 1)), carrier_frequency=1e9)
    return si.SidelobeEvaluator(d, k.pop("mode", co.AntennaMode.TX), bf.SphericalFocus(0.25, 0.5), **k)


C("SidelobeEvaluator", sidelobe, mode=MODE[1:], codebook=[L(lambda: np.array([[1.0, 1j], [0.5, 1]]))])


def tframe(k=1):
    return mo.CommunicationTransmissionFrame(signal(), bits(8), 4, bits(16), 8, symbols(), symbols(2), 0.5 * k)


def rframe(k=1):
    return mo.CommunicationReceptionFrame(signal(), signal(6), symbols(), symbols(2), 0.5 * k, symbols(3), bits(16), 8, bits(8), 4)


C("CommunicationTransmissionFrame", tframe, k=[2])
C("CommunicationReceptionFrame", rframe, k=[2])
C("CommunicationTransmission", lambda n=0: mo.CommunicationTransmission(signal(), [tframe(1 + k) for k in range(n)]), n=[1, 3])
C("CommunicationReception", lambda n=0: mo.CommunicationReception(signal(), [rframe(1 + k) for k in range(n)]), n=[1, 3])
# -- joint communication and sensing ----------------------------------------------------------------
C("MatchedFilterJcas", jc.MatchedFilterJcas, dict(max_range=[10.0, 20.0]), waveform=WAVE, receive_beamformer=[L(bf.ConventionalBeamformer)], detector=[L(lambda: ra.ThresholdDetector(0.25))], min_range=[2.5], max_velocity=[3.0], velocity_resolution=[0.5], carrier_frequency=[1e9], selected_transmit_ports=[[1, 0]], selected_receive_ports=[[2]])
C("OFDMRadar", jc.OFDMRadar, waveform=[L(lambda: mo.OFDMWaveform(resources(), structure(), num_subcarriers=16))], receive_beamformer=[L(bf.ConventionalBeamformer)], detector=[L(lambda: ra.ThresholdDetector(0.25))], min_range=[2.5], carrier_frequency=[1e9], selected_transmit_ports=[[1, 0]], selected_receive_ports=[[2]])
# -- operators -----------------------------------------------------------------------------------------
C("SilentTransmitter", co.SilentTransmitter, dict(num_samples=[3, 9]), selected_transmit_ports=[[1, 0]])
C("SignalTransmitter", co.SignalTransmitter, dict(signal=[L(signal), L(sparse)]), selected_transmit_ports=[[1, 0]])
C("SignalReceiver", co.SignalReceiver, dict(num_samples=[3, 9]), selected_receive_ports=[[1, 0]], expected_power=[2.0])
C("BeamformingTransmitter", bf.BeamformingTransmitter, dict(signal=[L(signal)], beamformer=[L(bf.ConventionalBeamformer)]))
C("BeamformingReceiver", bf.BeamformingReceiver, dict(beamformer=[L(bf.ConventionalBeamformer)], num_samples=[4, 5]), selected_receive_ports=[[1, 0]], expected_power=[2.0])
# -- channels --------------------------------------------------------------------------------------------
G = dict(gain=[0.5])
C("IdealChannel", ch.IdealChannel, **G)
FAD = dict(correlation_distance=[3.0], num_sinusoids=[7], los_angle=[0.5], doppler_frequency=[2.0], los_doppler_frequency=[1.0], antenna_correlation=[L(lambda: ch.StandardAntennaCorrelation("LOW")), L(lambda: ch.CustomAntennaCorrelation(np.array([[1.0, 0.25], [0.25, 1.0]])))], gain=[0.5])
C("MultipathFadingChannel", ch.MultipathFadingChannel, dict(delays=[L(lambda: np.array([0.0, 1e-6]))], power_profile=[L(lambda: np.array([1.0, 0.5]))], rice_factors=[L(lambda: np.array([np.inf, 2.0]))]), **FAD)
C("TDL", ch.TDL, model_type=[ch.TDLType.B], rms_delay=[1e-7], **FAD)
C("TDL-D", ch.TDL, dict(model_type=[ch.TDLType.D, ch.TDLType.E]), rms_delay=[1e-7], **{k: v for k, v in FAD.items() if not k.startswith("los_")})
C("Cost259", ch.Cost259, model_type=[ch.Cost259Type.RURAL, ch.Cost259Type.HILLY], **{k: v for k, v in FAD.items() if k != "los_angle"})
C("Exponential", ch.Exponential, dict(tap_interval=[1e-6], rms_delay=[2e-6]), **FAD)
C("RandomDelayChannel", ch.RandomDelayChannel, dict(delay=[1e-6, (1e-6, 2e-6)]), decorrelation_distance=[4.0], model_propagation_loss=[False], gain=[0.5])
C("SpatialDelayChannel", ch.SpatialDelayChannel, model_propagation_loss=[False], gain=[0.5])
C("SingleTargetRadarChannel", ch.SingleTargetRadarChannel, dict(target_range=[5.0, (5.0, 6.0)], radar_cross_section=[1.0, 2.5]), target_azimuth=[0.5, (0.1, 0.2)], target_zenith=[0.5, (0.1, 0.2)], target_exists=[False], velocity=[2.0, (1.0, 2.0), L(lambda: np.array([1.0, 2, 3]))], decorrelation_distance=[3.0], attenuate=[False], gain=[0.5])


def multi(targets=0, **kw):
    c = ch.MultiTargetRadarChannel(**kw)
    for k in range(targets):
        c.add_target(ch.VirtualRadarTarget(ch.FixedCrossSection(1.0 + k), si.StaticTrajectory(pose(k)), static=bool(k)))
    return c


C("MultiTargetRadarChannel", multi, targets=[1, 2], interference=[False], decorrelation_distance=[3.0], attenuate=[False], gain=[0.5])
C("VirtualRadarTarget", lambda cs=1.0, **k: ch.VirtualRadarTarget(ch.FixedCrossSection(cs), **k), cs=[3.0], trajectory=[L(lambda: si.StaticTrajectory(pose(2)))], static=[True])
CD = dict(delay_normalization=[ch.DelayNormalization.TOF], oxygen_absorption=[False], gain=[0.5])
C("IndoorFactory", ch.IndoorFactory, dict(volume=[100.0], surface=[80.0], factory_type=[ch.FactoryType.SL, ch.FactoryType.HH]), clutter_height=[2.5], expected_state=[ch.LOSState.LOS, ch.LOSState.NLOS], **CD)
C("IndoorOffice", ch.IndoorOffice, office_type=[ch.OfficeType.OPEN, ch.OfficeType.MIXED], expected_state=[ch.LOSState.LOS, ch.LOSState.NLOS], **CD)
for n in ("RuralMacrocells", "UrbanMacrocells", "UrbanMicrocells"):
    C(n, getattr(ch, n), expected_state=[ch.O2IState.LOS, ch.O2IState.NLOS, ch.O2IState.O2I], **CD)
C("CDL", ch.CDL, dict(model_type=[ch.CDLType.A, ch.CDLType.E], rms_delay=[1e-7]), rayleigh_factor=[2.0], decorrelation_distance=[3.0], gain=[0.5])
# -- radio-frequency front-end ---------------------------------------------------------------------------
NM, NL = [L(lambda: si.AWGN(seed=3))], [L(lambda: si.N0(0.5)), L(lambda: si.ThermalNoise(200.0))]
NO = dict(noise_model=NM, noise_level=NL)
from hermespy.simulation.rf.blocks import ad, amps, filters, mixers, ramp, shift, source, split, sum as sum_, x4  # noqa: E402
from hermespy.simulation.rf.noise import level, model, phase_noise  # noqa: E402

C("ADC", ad.ADC, num_quantization_bits=[3], gain=[L(lambda: ad.Gain(0.5, True)), L(lambda: ad.AutomaticGainControl(ad.GainControlType.RMS_AMPLITUDE, 2.0, True))], quantizer_type=[ad.QuantizerType.MID_TREAD], num_ports=[3], **NO)
C("DAC", ad.DAC, num_quantization_bits=[3], num_ports=[3], **NO)
C("Gain", ad.Gain, gain=[0.5], rescale_quantization=[True])
C("AGC", ad.AutomaticGainControl, agc_type=[ad.GainControlType.RMS_AMPLITUDE], backoff=[2.0], rescale_quantization=[True])
C("PowerAmplifier", amps.PowerAmplifier, gain=[2.0], **NO)
C("ClippingPowerAmplifier", amps.ClippingPowerAmplifier, gain=[2.0], saturation_amplitude=[0.5], **NO)
C("RappPowerAmplifier", amps.RappPowerAmplifier, gain=[2.0], smoothness_factor=[3.0], **NO)
C("SalehPowerAmplifier", amps.SalehPowerAmplifier, dict(amplitude_alpha=[2.0], amplitude_beta=[1.0], phase_alpha=[4.0], phase_beta=[9.0]), gain=[2.0], **NO)
C("CustomPowerAmplifier", amps.CustomPowerAmplifier, {k: [L(lambda k=k: np.arange(3) + (0.1 if k == "gains" else 0.2 if k == "phases" else 0))] for k in ("input", "gains", "phases")}, gain=[2.0], **NO)
C("HPF", filters.HPF, dict(cutoff_frequency=[1e5, 2e5]), filter_order=[3], **NO)
C("Mixer", mixers.Mixer, dict(mixer_type=[mixers.MixerType.UP, mixers.MixerType.DOWN]), **NO)
C("IdealMixer", mixers.IdealMixer, dict(mixer_type=[mixers.MixerType.UP, mixers.MixerType.DOWN]), lo_frequency=[1e9], **NO)
C("RampGenerator", ramp.RampGenerator, dict(num_chirps=[3], chirp_bandwidth=[1e6], chirp_slope=[1e9], chirp_interval=[1e-3]), **NO)
C("Shift", shift.Shift, phase=[0.5], num_ports=[2], **NO)
C("Source", source.Source, carrier_frequency=[1e9], phase_noise=[L(lambda: phase_noise.OscillatorPhaseNoise(1e-9, 11.0, 12.0))], amplitude=[0.5], **NO)
C("Split", split.Split, dict(num_outputs=[2, 3]))
C("Sum", sum_.Sum, dict(num_input_ports=[2, 3]))
C("X4", x4.X4)
C("OscillatorPhaseNoise", phase_noise.OscillatorPhaseNoise, K0=[1e-9], K2=[11.0], K3=[12.0])
C("NoPhaseNoise", phase_noise.NoPhaseNoise)
C("ThermalNoise", level.ThermalNoise, dict(temparature=[100.0, 300.0]))
C("N0", level.N0, dict(power=[0.5, 2.0]))
C("SNR", lambda k: level.SNR(3.0, TX.fn()), dict(k=[0]))
C("EBN0", lambda k: si.EBN0(mo.TransmittingModem(waveform=V(WAVE[0])), k), dict(k=[2.0, 3.0]))
C("ESN0", lambda k: si.ESN0(mo.TransmittingModem(waveform=V(WAVE[0])), k), dict(k=[2.0, 3.0]))
C("AWGN", model.AWGN, seed=[5])
# -- devices ---------------------------------------------------------------------------------------------
C("ImpedanceCoupling", si.ImpedanceCoupling, **{k: [L(lambda i=i: np.eye(2) * (i + 1j))] for i, k in enumerate(("transmit_correlation", "receive_correlation", "transmit_impedance", "receive_impedance", "matching_impedance"), 1)})
C("PerfectCoupling", si.PerfectCoupling)
C("PerfectIsolation", si.PerfectIsolation)
C("SelectiveLeakage", si.SelectiveLeakage, dict(leakage_response=[L(lambda: np.arange(12).reshape(2, 2, 3) * (1 + 1j))]))
C("SpecificIsolation", si.SpecificIsolation, isolation=[L(lambda: np.array([[0.1, 0.2], [0.3, 0.4]])), 0.5])
C("StaticTrigger", si.StaticTrigger)
C("RandomTrigger", si.RandomTrigger)
C("SampleOffsetTrigger", si.SampleOffsetTrigger, dict(num_offset_samples=[0, 5]))
C("TimeOffsetTrigger", si.TimeOffsetTrigger, dict(offset=[0.0, 1e-3]))
C("NormalTrigger", lambda m, s: si.NormalTrigger(m, s) if hasattr(si, "NormalTrigger") else None, dict(m=[1e-3], s=[1e-4]))
C("TriggerRealization", si.TriggerRealization, dict(num_offset_samples=[0, 4], sampling_rate=[1e6]))


def rf_chain(kind):
    c = si.RFChain()
    dac, adc = ad.DAC(num_quantization_bits=3), ad.ADC(num_quantization_bits=4)
    if kind == "empty":
        return c
    if kind == "blocks":
        c.add_block(dac)
        return c
    d, a, pa = c.add_block(dac), c.add_block(adc), c.add_block(amps.PowerAmplifier(2.0))
    c.connect(d.port("o"), pa.port("i"))
    return c


DEV = dict(carrier_frequency=[1e9], bandwidth=[2e6], oversampling_factor=[3], antennas=[L(simulated_array)], isolation=[L(lambda: si.SelectiveLeakage(np.ones((2, 2, 1))))], coupling=[L(lambda: si.ImpedanceCoupling(np.eye(2)))], trigger_model=[L(lambda: si.SampleOffsetTrigger(3))], noise_level=[L(lambda: si.N0(0.5))], noise_model=[L(lambda: si.AWGN())], operator_separation=[True], power=[2.0], pose=POSE, transmit_dsp=[L(lambda: mo.TransmittingModem(carrier_frequency=1e9))], receive_dsp=[L(lambda: mo.ReceivingModem(carrier_frequency=1e9))])
C("SimulatedDevice1", si.SimulatedDevice, **{k: DEV[k] for k in ("carrier_frequency", "bandwidth", "oversampling_factor", "antennas", "trigger_model", "power", "pose")})
C("SimulatedDevice2", si.SimulatedDevice, **{k: DEV[k] for k in ("isolation", "coupling", "antennas", "noise_level", "noise_model", "operator_separation", "transmit_dsp", "receive_dsp")})
C("DelayCalibration", hl.DelayCalibration, dict(delay=[1e-6, 2e-6]))
C("ScalarAntennaCalibration", hl.ScalarAntennaCalibration, dict(transmit_correction_weights=[L(lambda: np.array([1.0, 2j]))], receive_correction_weights=[L(lambda: np.array([3.0, 4j]))]))
C("SelectiveLeakageCalibration", hl.SelectiveLeakageCalibration, dict(leakage_response=[L(lambda: np.arange(12).reshape(2, 2, 3) * (1 + 1j))], sampling_rate=[1e6]), delay=[1e-6], transmit_ports=[[0, 1]], receive_ports=[[1, 0]])
C("PhysicalDeviceDummy", hl.PhysicalDeviceDummy, antennas=[L(simulated_array)], receive_transmission=[False], carrier_frequency=[1e9], bandwidth=[2e6], max_receive_delay=[1e-3])
# -- drops -----------------------------------------------------------------------------------------------
C("Drop", lambda n: co.Drop(3.5, [co.DeviceTransmission([co.Transmission(signal())], signal()) for _ in range(n)], [co.DeviceReception([signal(4)], [signal(3)], [co.Reception(signal(2))]) for _ in range(n)]), dict(n=[0, 1, 2]))
C("Transmission", lambda: co.Transmission(signal()))
C("Reception", lambda: co.Reception(sparse()))
C("DeviceOutput", lambda: co.DeviceOutput(signal()))
C("DeviceInput", lambda n: co.DeviceInput([signal(k + 1) for k in range(n)]), dict(n=[1, 3]))
C("ProcessedDeviceInput", lambda n: co.ProcessedDeviceInput([signal(k + 1) for k in range(n)], [signal(4 + k) for k in range(2)]), dict(n=[1, 3]))


def cases():
    for i, (name, make, req, opt, _) in enumerate(CATALOG):
        keys = list(req) + list(opt)
        choices = [list(enumerate(req[k])) for k in req] + [[(None, None)] + list(enumerate(opt[k])) for k in opt]
        full = 1
        for c in choices:
            full *= len(c)
        if full <= LIMIT[0]:
            combos = itertools.product(*choices)
        else:  # every pair of parameter values jointly
            combos = pairs(choices)
        for combo in combos:
            yield (i, tuple(c[0] for c in combo))


LIMIT = [256]


def pairs(choices):
    seen = set()
    base = [c[0] for c in choices]
    top = [c[-1] for c in choices]
    for a in range(len(choices)):
        for b in range(a, len(choices)):
            for u in choices[a]:
                for v in choices[b]:
                    for g in (base, top):
                        x = list(g)
                        x[b] = v
                        x[a] = u
                        t = tuple(c[0] for c in x)
                        if t not in seen:
                            seen.add(t)
                            yield x


def one(acc, i, combo):
    name, make, req, opt, _ = CATALOG[i]
    keys = list(req) + list(opt)
    kw = {k: V((req.get(k) or opt.get(k))[c]) for k, c in zip(keys, combo) if c is not None}
    obj = make(**kw)
    before = observe(obj)
    again = roundtrip(obj)
    after = observe(again)
    d = difference(before, after, name)
    expect(d is None, "restored object differs: %s", d)
    untouched = difference(before, observe(obj), name)
    expect(untouched is None, "serialization changes the object: %s", untouched)
    third = difference(after, observe(roundtrip(again)), name)
    expect(third is None, "second generation differs: %s", third)
    acc.step(2)
    acc.state(name, repr(combo))


def shard(acc, s):
    for i, combo in s:
        name = CATALOG[i][0]
        acc.run("%s:%s" % (name, ",".join("-" if c is None else str(c) for c in combo)), lambda: one(acc, i, combo), (name, combo))


def main(check):
    LIMIT[0] = 4096 if check.thorough else 128
    allc = list(cases())
    check.bounds = {"classes": len(CATALOG), "combinations": len(allc)}
    check.explore(shard, [allc[i::64] for i in range(64)])
