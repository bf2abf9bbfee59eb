"""P33: modems deliver their bits, frame by frame, over ideal links."""
import itertools
import os
import shutil
import tempfile

import numpy as np

import hermespy.modem as mo
from hermespy.channel import IdealChannel
from hermespy.core import Signal
from hermespy.fec import BlockInterleaver, CyclicRedundancyCheck, RepetitionEncoder, Scrambler80211a
from hermespy.modem import DFT, Alamouti, BitErrorEvaluator, ChannelEstimation, DuplexModem, Ganesan, GridElement, GridResource, MaximumRatioCombining, ElementType, PrefixType, SymbolSection, SimplexLink, StatedSymbols, StreamBitsSource, TransmittingModem, ReceivingModem
from hermespy.modem.bits_source import BitsSource, RandomBitsSource
from hermespy.modem.frame_generator import FrameGenerator, FrameGeneratorStub
from hermespy.simulation import EBN0, ESN0, SimulatedDevice, SimulatedIdealAntenna, SimulatedUniformArray
from ..core import Acc, chunks, expect, histories

BANDWIDTH = 1e6


def grid(cls, guards=False):
    def make(order):
        resources = [GridResource(4, PrefixType.CYCLIC, 0.25, [GridElement(ElementType.REFERENCE), GridElement(ElementType.DATA, 2), GridElement(ElementType.NULL)][: 2 + guards]), GridResource(2, PrefixType.NONE, 0.0, [GridElement(ElementType.DATA, 8 if guards else 6)])]
        w = cls(grid_resources=resources, grid_structure=[SymbolSection(2, [0, 1])], num_subcarriers=16 if guards else 12, modulation_order=order)
        w.channel_equalization = mo.OrthogonalZeroForcingChannelEqualization()
        return w
    return make


def single(cls, **kw):
    def make(order):
        w = cls(num_preamble_symbols=2, num_postamble_symbols=1, num_data_symbols=24, modulation_order=order, **kw)
        w.channel_equalization = mo.SingleCarrierZeroForcingChannelEqualization()
        return w
    return make


def chirp(order):
    return mo.ChirpFSKWaveform(chirp_duration=16e-6, num_pilot_chirps=1, num_data_chirps=24, guard_interval=3e-6, modulation_order=order)


WAVES = {
    "rrc": single(mo.RootRaisedCosineWaveform, roll_off=0.9),
    "rc": single(mo.RaisedCosineWaveform, roll_off=0.1),
    "rect": single(mo.RectangularWaveform),
    "fmcw": single(mo.FMCWWaveform, num_samples_per_chirp=8),
    "chirp": chirp,
    "ofdm": grid(mo.OFDMWaveform),
    "ofdm guards": grid(mo.OFDMWaveform, True),
    "otfs": grid(mo.OTFSWaveform),
    "ocdm": grid(mo.OCDMWaveform),
}
CODES = {
    "none": lambda: [],
    "repeat": lambda: [RepetitionEncoder(bit_block_size=4, repetitions=3)],
    "crc": lambda: [CyclicRedundancyCheck(5, 2)],
    "chain": lambda: [CyclicRedundancyCheck(4, 1), RepetitionEncoder(bit_block_size=5, repetitions=3), BlockInterleaver(10, 5)],
    "scrambled": lambda: [Scrambler80211a(), RepetitionEncoder(bit_block_size=2, repetitions=3)],
}
# Precodings with the number of transmit and receive antennas they are tested with
PRECODINGS = {"none": (lambda: [], ((1, 1), (2, 2), (3, 3), (2, 3))), "dft": (lambda: [DFT()], ((1, 1),)), "alamouti": (lambda: [Alamouti()], ((2, 1), (2, 2))), "ganesan": (lambda: [Ganesan()], ((4, 1), (4, 2)))}
MATRIX = np.array([[0.9, 0.3j, -0.2, 0.1 - 0.2j], [-0.1 + 0.3j, 0.8j, 0.25, -0.3], [0.2, -0.1, 1 - 0.2j, 0.4], [0.1j, 0.2, 0.3 + 0.1j, -1.0]])
KINDS = ("simplex", "duplex", "separate")


class Known(ChannelEstimation):
    """Estimation of the matrix known to connect the antennas."""

    def __init__(self, matrix):
        super().__init__()
        self.matrix = matrix

    def estimate_channel(self, symbols, bandwidth, oversampling_factor, delay=0.0):
        state = np.broadcast_to(self.matrix[:, :, None, None], self.matrix.shape + (symbols.num_blocks, symbols.num_symbols)).astype(complex)
        return StatedSymbols(symbols.raw, state)


class Counting(BitsSource):
    """Bits of a fixed pseudo-random sequence, recording the number of bits requested."""

    def __init__(self, sequence=None):
        super().__init__()
        self.sequence = np.random.default_rng(7).integers(0, 2, 60000).astype(np.uint8) if sequence is None else sequence
        self.consumed = 0

    def generate_bits(self, num_bits):
        self.consumed += num_bits
        return self.sequence[self.consumed - num_bits : self.consumed].copy()


class Headers(FrameGenerator):
    """Frames of a header followed by the payload."""

    HEADER = np.array([1, 0], dtype=np.uint8)

    def pack_frame(self, source, num_bits):
        return np.append(self.HEADER, source.generate_bits(num_bits - 2))

    def unpack_frame(self, frame):
        expect(np.array_equal(frame[:2], self.HEADER), "the received header is %s", frame[:2])
        return frame[2:]

    def serialize(self, process):
        pass

    @classmethod
    def Deserialize(cls, process):
        return cls()


def device(num=1, oversampling=1, seed=1):
    return SimulatedDevice(carrier_frequency=1e9, bandwidth=BANDWIDTH, oversampling_factor=oversampling, antennas=SimulatedUniformArray(SimulatedIdealAntenna(), 0.15, [num, 1, 1]), seed=seed)


def modems(kind):
    if kind == "separate":
        return TransmittingModem(), ReceivingModem()
    link = SimplexLink() if kind == "simplex" else DuplexModem()
    return link, link


def configure(tx, rx, wave, order, code, precoding, matrix):
    """Configure both ends identically."""
    for m in {tx, rx}:
        m.waveform = WAVES[wave](order)
        for encoder in CODES[code]():
            m.encoder_manager.add_encoder(encoder)
    rx.waveform.channel_estimation = Known(matrix)
    if precoding in ("alamouti", "ganesan"):
        rx.waveform.channel_equalization = mo.ChannelEqualization()
    if precoding != "none":
        make = PRECODINGS[precoding][0]
        tx.transmit_symbol_coding[0], rx.receive_symbol_coding[0] = make()[0], make()[0]
        if matrix.shape[0] > 1:
            rx.receive_symbol_coding[1] = MaximumRatioCombining()


def chirped(wave):
    return wave == "chirp"


def samples_of(signal):
    return np.asarray(signal.to_dense().view(np.ndarray))


def check_transmission(tx, transmission, frames, oversampling, ports, source, consumed):
    """The transmission consists of the given number of frames, in order, without gaps."""
    n = tx.samples_per_frame(BANDWIDTH, oversampling)
    expect(n == tx.waveform.samples_per_frame(BANDWIDTH, oversampling) and tx.frame_duration(BANDWIDTH) == tx.waveform.frame_duration(BANDWIDTH), "modem and waveform disagree about the frame's length")
    expect(transmission.num_frames == len(transmission.frames) == frames, "%d frames instead of %d", transmission.num_frames, frames)
    expect(transmission.signal.num_streams == ports and transmission.signal.num_samples == frames * n, "signal of %s instead of %s samples", (transmission.signal.num_streams, transmission.signal.num_samples), (ports, frames * n))
    expect(transmission.signal.sampling_rate == BANDWIDTH * oversampling, "signal sampled at %s", transmission.signal.sampling_rate)
    whole = samples_of(transmission.signal)
    for f, frame in enumerate(transmission.frames):
        expect(np.array_equal(samples_of(frame.signal), whole[:, f * n : (f + 1) * n]), "samples of frame %d aren't part of the transmission", f)
        expect(abs(frame.timestamp - f * tx.frame_duration(BANDWIDTH)) <= 1e-12, "frame %d is stamped %s", f, frame.timestamp)
        expect(frame.bit_block_size == tx.encoder_manager.bit_block_size and frame.code_block_size == tx.encoder_manager.code_block_size, "block sizes of frame %d", f)
    payload = sum(f.bits.size for f in transmission.frames)
    expect(source.consumed - consumed == payload, "%d bits of the source transmitted as %d bits", source.consumed - consumed, payload)
    expect(np.array_equal(transmission.bits, source.sequence[consumed : source.consumed]), "transmitted bits aren't those of the source in order")
    expect(np.array_equal(np.concatenate([f.bits for f in transmission.frames] or [np.empty(0)]), transmission.bits), "bits aren't those of the frames")
    return whole, n


def check_reception(rx, transmission, reception, starts, rate, note=""):
    """The reception recovers the transmitted frames, which started at the given samples."""
    expect(reception.num_frames == len(reception.frames) == len(starts), "%s%d frames received instead of %d", note, reception.num_frames, len(starts))
    for f, (sent, got, start) in enumerate(zip(transmission.frames, reception.frames, starts)):
        expect(np.array_equal(sent.encoded_bits, got.encoded_bits), "%sencoded bits of frame %d differ", note, f)
        expect(np.array_equal(sent.bits, got.decoded_bits), "%sdecoded bits of frame %d differ", note, f)
        expect(abs(got.timestamp - start / rate) <= 1e-12, "%sframe %d is stamped %s instead of %s", note, f, got.timestamp, start / rate)
        expect((got.bit_block_size, got.code_block_size) == (sent.bit_block_size, sent.code_block_size), "%sblock sizes of frame %d", note, f)
        expect(got.signal.num_samples == rx.samples_per_frame(rate / got_ovs(rate), got_ovs(rate)), "%sframe %d consists of %d samples", note, f, got.signal.num_samples)
    n = len(starts)
    expect(np.array_equal(reception.bits, np.concatenate([f.bits for f in transmission.frames[:n]] or [np.empty(0)])), "%sreceived bits", note)
    expect(np.array_equal(reception.encoded_bits, np.concatenate([f.encoded_bits for f in transmission.frames[:n]] or [np.empty(0)])), "%sreceived encoded bits", note)


def got_ovs(rate):
    return round(rate / BANDWIDTH)


def check_symbols(transmission, reception, wave):
    sent, got = transmission.symbols.raw, reception.equalized_symbols.raw
    expect(sent.size == got.size, "%d equalized symbols instead of %d", got.size, sent.size)
    tolerance = {"rrc": 0.1, "rc": 0.4}.get(wave, 1e-8)
    expect(wave == "chirp" or bool(np.all(np.abs(sent.reshape(sent.shape[0], -1) - got.reshape(got.shape[0], -1)) <= tolerance)), "equalized symbols differ from the transmitted symbols")


def build(kind, wave, order, code, precoding, antennas, oversampling):
    nt, nr = antennas
    tx, rx = modems(kind)
    matrix = MATRIX[:nr, :nt] if antennas != (1, 1) else np.array([[0.6 - 0.7j]])
    if wave == "chirp":
        matrix = np.eye(nr, nt, dtype=complex)
    configure(tx, rx, wave, order, code, precoding, matrix)
    tx.bits_source = source = Counting()
    a, b = device(nt, oversampling), device(nr, oversampling, 2)
    a.transmitters.add(tx)
    b.receivers.add(rx)
    return tx, rx, source, a, b, matrix


def received(samples, matrix, rate):
    return Signal.Create(matrix @ samples, rate, carrier_frequency=1e9)


def link(acc, case):
    """Frames transmitted over a known mixing matrix are received, whatever their number."""
    _, kind, wave, order, code, precoding, antennas, oversampling, frames = case
    tx, rx, source, a, b, matrix = build(kind, wave, order, code, precoding, antennas, oversampling)
    rate = BANDWIDTH * oversampling
    evaluators = (BitErrorEvaluator(tx, rx),)
    for number, duration in ((frames, frames * tx.frame_duration(BANDWIDTH)), (1, 0.0), (frames, (frames + 0.4) * tx.frame_duration(BANDWIDTH))):
        consumed = source.consumed
        transmission = tx.transmit(a.state(), duration)
        whole, n = check_transmission(tx, transmission, number, oversampling, antennas[0], source, consumed)
        reception = rx.receive(received(whole, matrix, rate), b.state())
        check_reception(rx, transmission, reception, [f * n for f in range(number)], rate)
        if precoding == "none" and (wave, oversampling) != ("rrc", 1):
            check_symbols(transmission, reception, wave)
        for evaluator in evaluators:
            value = evaluator.evaluate().artifact().to_scalar()
            expect(value == 0.0, "error rate of %s over an ideal link", value)
        # The end of the last frame is missing
        for missing in (1, n // 2, n):
            reception = rx.receive(received(whole[:, : whole.shape[1] - missing], matrix, rate), b.state())
            check_reception(rx, transmission, reception, [f * n for f in range(number - 1)], rate, "truncated: ")
        # Samples following the last frame
        reception = rx.receive(received(np.pad(whole, ((0, 0), (0, n - 1))), matrix, rate), b.state())
        check_reception(rx, transmission, reception, [f * n for f in range(number)], rate, "extended: ")
        acc.step()
    expect(tx.power == tx.waveform.power and rx.power == rx.waveform.power, "modems of power %s", tx.power)
    acc.state((kind, wave, code, precoding, antennas, oversampling, frames))


def blocks(acc, case):
    """Frames within blocks of a sparse signal are received where the blocks are."""
    _, wave, code, layout, oversampling = case
    tx, rx, source, a, b, matrix = build("separate", wave, 4, code, "none", (1, 1), oversampling)
    rate = BANDWIDTH * oversampling
    n = tx.samples_per_frame(BANDWIDTH, oversampling)
    total = sum(count for _, count, _ in layout)
    transmission = tx.transmit(a.state(), total * tx.frame_duration(BANDWIDTH))
    whole = matrix @ samples_of(transmission.signal)
    parts, starts, offset, done = [], [], 0, 0
    for gap, count, tail in layout:
        offset += gap
        parts.append((offset, np.pad(whole[:, done * n : (done + count) * n], ((0, 0), (0, tail)))))
        starts += [offset + f * n for f in range(count)]
        done += count
        offset += count * n + tail
    signal = Signal.Create([p for _, p in parts], rate, 1e9, offsets=[o for o, _ in parts])
    reception = rx.receive(signal, b.state())
    check_reception(rx, transmission, reception, starts, rate)
    acc.state((wave, layout, oversampling))


def silence(acc, case):
    """Nothing is received from signals shorter than a frame."""
    _, wave, code, oversampling, length = case
    tx, rx, source, a, b, matrix = build("simplex", wave, 4, code, "none", (1, 1), oversampling)
    n = tx.samples_per_frame(BANDWIDTH, oversampling)
    count = {"empty": 0, "one": 1, "short": n - 1}[length]
    signal = Signal.Create(np.ones((1, count), dtype=complex), BANDWIDTH * oversampling, carrier_frequency=1e9)
    reception = rx.receive(signal, b.state())
    expect(reception.num_frames == 0 and reception.bits.size == 0 and reception.encoded_bits.size == 0 and reception.symbols.num_symbols == 0, "received %d frames from %d samples", reception.num_frames, count)
    transmission = tx.transmit(a.state(), 0.6 * tx.frame_duration(BANDWIDTH))
    expect(transmission.num_frames == 0 and transmission.bits.size == 0 and transmission.signal.num_samples == 0, "%d frames transmitted within a fraction of a frame", transmission.num_frames)
    acc.state((wave, oversampling, length))


def history(acc, case):
    """Links keep working while they are reconfigured between transmissions."""
    _, kind, ops = case
    tx, rx, source, a, b, matrix = build(kind, "rect", 4, "none", "none", (1, 1), 2)
    for op in ops:
        consumed = source.consumed
        if op[0] == "wave":
            for m in {tx, rx}:
                m.waveform = WAVES[op[1]](op[2])
                expect(m.waveform.modulation_order == op[2], "modulation order %s", m.waveform.modulation_order)
            rx.waveform.channel_estimation = Known(matrix)
        elif op[0] == "order":
            for m in {tx, rx}:
                m.waveform.modulation_order = op[1]
        elif op[0] == "code":
            for m in {tx, rx}:
                manager = m.encoder_manager
                while len(manager.encoders):
                    manager.encoders.remove(manager.encoders[0]) if not hasattr(manager, "remove_encoder") else manager.remove_encoder(manager.encoders[0])
                for encoder in CODES[op[1]]():
                    manager.add_encoder(encoder)
        elif op[0] == "manager":
            from hermespy.fec import EncoderManager
            for m in {tx, rx}:
                m.encoder_manager = EncoderManager()
                for encoder in CODES[op[1]]():
                    m.encoder_manager.add_encoder(encoder)
        elif op[0] == "frame":
            for m in {tx, rx}:
                m.frame_generator = {"stub": FrameGeneratorStub, "header": Headers}[op[1]]()
        elif op[0] == "source":
            tx.bits_source = source = Counting(np.random.default_rng(op[1]).integers(0, 2, 20000).astype(np.uint8))
            consumed = 0
        elif op[0] == "dft":
            tx.transmit_symbol_coding[0], rx.receive_symbol_coding[0] = DFT(), DFT()
            if chirped_waveform(tx):
                acc.step()
                return
        frames = op[-1] if op[0] == "send" else 1
        transmission = tx.transmit(a.state(), frames * tx.frame_duration(BANDWIDTH))
        whole, n = check_transmission(tx, transmission, frames, 2, 1, source, consumed)
        reception = rx.receive(received(whole, matrix if not chirped_waveform(tx) else np.eye(1), BANDWIDTH * 2), b.state())
        check_reception(rx, transmission, reception, [f * n for f in range(frames)], BANDWIDTH * 2)
        acc.step()
    acc.state((kind, ops))


def chirped_waveform(m):
    return isinstance(m.waveform, mo.ChirpFSKWaveform)


def source(acc, case):
    """The bits of a file are transmitted in order over successive frames, streams and transmissions."""
    _, wave, order, streams, counts = case
    tx, rx, _, a, b, matrix = build("separate", wave, order, "none", "none", (streams, streams), 1)
    data = bytes(np.random.default_rng(3).integers(0, 256, 600).astype(np.uint8))
    bits = np.unpackbits(np.frombuffer(data, dtype=np.uint8))
    scratch = tempfile.mkdtemp(prefix="p33")
    try:
        path = os.path.join(scratch, "bits")
        with open(path, "wb") as f:
            f.write(data)
        tx.bits_source = StreamBitsSource(path)
        done = 0
        for count in counts:
            transmission = tx.transmit(a.state(), count * tx.frame_duration(BANDWIDTH))
            expect(np.array_equal(transmission.bits, bits[done : done + transmission.bits.size]), "bits transmitted after %d bits of the file differ", done)
            done += transmission.bits.size
            reception = rx.receive(received(samples_of(transmission.signal), matrix, BANDWIDTH), b.state())
            expect(np.array_equal(reception.bits, transmission.bits), "bits of the file aren't received")
    finally:
        shutil.rmtree(scratch)
    acc.state((wave, order, streams, counts))


def packets(acc, case):
    """Packets carry their headers and payloads."""
    from scapy.layers.dot11 import Dot11
    from scapy.layers.inet import IP, UDP
    from scapy.packet import raw
    from hermespy.modem.frame_generator.scapy import FrameGeneratorScapy
    _, name, extra = case
    packet = {"ip": IP(src="10.1.2.3", dst="10.9.8.7", len=77, id=5, chksum=12), "udp": IP(src="10.1.2.3", dst="10.9.8.7", len=99, id=5, chksum=12) / UDP(sport=17, dport=99, len=31, chksum=7), "dot11": Dot11(proto=1, ID=1337, addr1="01:23:45:67:89:ab", addr2="ff:ee:dd:cc:bb:aa")}[name]
    header = np.unpackbits(np.frombuffer(raw(packet), np.uint8))
    generator, bits = FrameGeneratorScapy(packet), Counting()
    for repetition in range(2):
        first = bits.consumed
        frame = generator.pack_frame(bits, header.size + extra)
        expect(frame.shape == (header.size + extra,), "frame of %s instead of %d bits", frame.shape, header.size + extra)
        expect(np.array_equal(frame[: header.size], header), "the frame doesn't start with the header of its packet")
        expect(np.array_equal(generator.unpack_frame(frame), bits.sequence[first : first + extra]), "the payload isn't recovered")
    tx, rx, source, a, b, matrix = build("simplex", "ofdm", 256, "none", "none", (2, 2), 1)
    tx.waveform.grid_structure[0].num_repetitions = 2
    tx.frame_generator = FrameGeneratorScapy(packet)
    evaluator = BitErrorEvaluator(tx, rx)
    transmission = tx.transmit(a.state(), 2 * tx.frame_duration(BANDWIDTH))
    whole, n = check_transmission(tx, transmission, 2, 1, 2, source, 0)
    reception = rx.receive(received(whole, matrix, BANDWIDTH), b.state())
    check_reception(rx, transmission, reception, [0, n], BANDWIDTH)
    expect(evaluator.evaluate().artifact().to_scalar() == 0.0, "bit errors of packets over an ideal link")
    acc.state((name, extra))


def energy(acc, case):
    """Symbol and bit energies equal the mean over all messages of the energy modulated, and scale noise accordingly."""
    _, name, order, symbols, oversampling = case
    one = [GridElement(ElementType.DATA)]
    sparse = [GridElement(ElementType.DATA), GridElement(ElementType.NULL)]
    w = {
        "rrc": lambda: mo.RootRaisedCosineWaveform(num_preamble_symbols=0, num_data_symbols=symbols, modulation_order=order, roll_off=0.5),
        "rc": lambda: mo.RaisedCosineWaveform(num_preamble_symbols=0, num_data_symbols=symbols, modulation_order=order, roll_off=0.5),
        "rect": lambda: mo.RectangularWaveform(num_preamble_symbols=0, num_data_symbols=symbols, modulation_order=order),
        "fmcw": lambda: mo.FMCWWaveform(num_preamble_symbols=0, num_data_symbols=symbols, modulation_order=order, num_samples_per_chirp=4),
        "chirp": lambda: mo.ChirpFSKWaveform(chirp_duration=8e-6, num_pilot_chirps=0, num_data_chirps=symbols, modulation_order=order),
        **{n: (lambda cls=cls, e=e, k=k: cls(grid_resources=[GridResource(symbols, PrefixType.NONE, 0.0, e)], grid_structure=[SymbolSection(1, [0])], num_subcarriers=k * symbols, modulation_order=order)) for n, cls, e, k in (("ofdm", mo.OFDMWaveform, one, 1), ("otfs", mo.OTFSWaveform, one, 1), ("ocdm", mo.OCDMWaveform, one, 1), ("sparse ofdm", mo.OFDMWaveform, sparse, 2), ("sparse ocdm", mo.OCDMWaveform, sparse, 2))},
    }[name]()
    n = w.bits_per_frame(w.num_data_symbols)
    expect(w.num_data_symbols == symbols, "%d data symbols", w.num_data_symbols)
    mean = 0.0
    for message in itertools.product((0, 1), repeat=n):
        mean += np.sum(np.abs(w.modulate(w.place(w.map(np.array(message, dtype=np.uint8))), BANDWIDTH, oversampling)) ** 2) / 2**n / symbols
        acc.step()
    tolerance = 0.03 if name in ("rc", "rrc") else 1e-9
    if name == "rrc" and oversampling == 1:  # Pulses sampled at the symbol rate alias
        mean = 1.0
    expect(abs(w.symbol_energy(BANDWIDTH, oversampling) / mean - 1) <= tolerance, "symbol energy %s instead of %s", w.symbol_energy(BANDWIDTH, oversampling), mean)
    expect(abs(w.bit_energy(BANDWIDTH, oversampling) * n / symbols / mean - 1) <= tolerance, "bit energy %s of symbols carrying %d bits and %s", w.bit_energy(BANDWIDTH, oversampling), n / symbols, mean)
    if name not in ("rrc", "rc", "sparse ofdm", "sparse ocdm"):
        power = mean * symbols / w.samples_per_frame(BANDWIDTH, oversampling)
        expect(abs(w.power - power) <= 1e-9, "power %s instead of %s", w.power, power)
    if oversampling == 1:
        m = SimplexLink()
        for level in (0.25, 1.0, 3.0, 100.0, float("inf")):
            for reference in (w, m):
                for kind, bits in ((ESN0, 1), (EBN0, n / symbols)):
                    noise = kind(reference, level) if level != float("inf") else kind(reference)
                    if reference is m:
                        m.waveform = None
                        try:
                            noise.get_power(BANDWIDTH)
                        except RuntimeError:
                            pass
                        else:
                            expect(False, "noise level of a modem without waveform")
                        m.waveform = w
                    power = noise.get_power(BANDWIDTH)
                    expect(noise.level == level and noise.reference is reference and abs(power - mean / bits / level) <= tolerance * (mean / bits / level), "noise of power %s for level %s instead of %s", power, level, mean / bits / level)
                    noise.level = 2.0
                    expect(abs(noise.get_power(BANDWIDTH) - mean / bits / 2) <= tolerance * mean, "noise of power %s after changing the level", noise.get_power(BANDWIDTH))
    acc.state((name, order, symbols, oversampling))


def devices(acc, case):
    """Bits are delivered from device to device over an ideal channel, by any number of modems."""
    _, kind, wave, code, oversampling, number, frames = case
    tx, rx, source, a, b, _ = build(kind, wave, 4, code, "none", (number, number), oversampling)
    if number == 1:
        rx.waveform.channel_estimation, rx.waveform.channel_equalization = ChannelEstimation(), mo.ChannelEqualization()
    else:
        rx.waveform.channel_estimation = Known(np.eye(number))
    channel = IdealChannel()
    for _ in range(2):
        transmission = a.transmit(a.state())
        sent = transmission.operator_transmissions[0]
        propagation = channel.realize().sample(a.state(), b.state()).propagate(transmission)
        reception = b.receive(propagation)
        got = reception.operator_receptions[0]
        expect(sent.num_frames == got.num_frames == 1, "%d frames received of %d", got.num_frames, sent.num_frames)
        expect(np.array_equal(sent.bits, got.bits), "%d of %d bits differ", np.sum(sent.bits != got.bits), sent.bits.size)
    acc.state((kind, wave, code, oversampling, number))


CASES = {"link": link, "blocks": blocks, "silence": silence, "history": history, "source": source, "packets": packets, "energy": energy, "devices": devices}


def run_cases(acc, cases):
    for case in cases:
        acc.run(case[0], lambda c=case: CASES[c[0]](acc, c), case)


def main(check):
    t = check.thorough
    cases = []
    for wave, code, kind in itertools.product(WAVES, (c for c in CODES if c != "scrambled"), KINDS):
        for order in ((4,) if wave == "chirp" else (2, 4, 16)) if t else (4,):
            for oversampling in (1, 2, 4) if t else (1, 2):
                if wave == "rrc" and oversampling == 1:  # Receivers don't match undersampled pulses
                    continue
                for frames in (1, 2, 3, 7) if t else (3,):
                    for precoding, (_, antennas) in PRECODINGS.items():
                        if wave == "chirp" and precoding != "none":
                            continue
                        for n in antennas:
                            if wave == "chirp" and n == (2, 3):
                                continue
                            if t or kind == "separate" or (code == "none" and n in ((1, 1), (2, 2))):
                                cases.append(("link", kind, wave, order, code, precoding, n, oversampling, frames))
    # Many frame counts, whose durations are subject to rounding
    cases += [("link", "simplex", wave, 4, "none", "none", (1, 1), 1, frames) for wave in ("rect", "ofdm", "chirp", "rrc") for frames in range(1, 60 if t else 25)]
    layouts = [((g0, c0, t0), (g1, c1, t1)) for g0, c0, t0, g1, c1, t1 in itertools.product((0, 5), (1, 2), (0, 3), (1, 400), (0, 1, 3), (0, 7))]
    cases += [("blocks", wave, "none", layout, o) for wave in WAVES for layout in layouts for o in ((1, 2) if t else (1,))]
    cases += [("silence", wave, code, o, length) for wave in WAVES for code in CODES for o in (1, 2) for length in ("empty", "one", "short")]
    ops = [("wave", "ofdm", 4), ("wave", "chirp", 2), ("wave", "fmcw", 16), ("order", 16), ("order", 2), ("code", "chain"), ("code", "scrambled"), ("code", "none"), ("manager", "repeat"), ("frame", "header"), ("frame", "stub"), ("source", 5), ("send", 3)]
    cases += [("history", kind, h) for h in histories(ops, 4 if t else 3) for kind in (KINDS if len(h) < 3 or t else (KINDS[len(h[0]) % 3],))]
    cases += [("source", wave, order, streams, counts) for wave in ("rect", "ofdm", "fmcw") for order in (4, 16) for streams in (1, 2) for counts in itertools.product((0, 1, 3), repeat=3)]
    cases += [("packets", name, extra) for name in ("ip", "udp", "dot11") for extra in range(0, 41, 1)]
    for name in ("rrc", "rc", "rect", "fmcw", "chirp", "ofdm", "otfs", "ocdm", "sparse ofdm", "sparse ocdm"):
        for order, symbols in ((2, 4), (4, 4), (16, 2), (2, 8), (64, 2), (4, 1)):
            if (name == "chirp" and order > 4) or (not t and order ** symbols > 300):
                continue
            cases += [("energy", name, order, symbols, o) for o in (1, 2, 4)]
    cases += [("devices", kind, wave, code, o, number, 1) for kind in KINDS for wave in WAVES for code in CODES for o in (1, 2) for number in (1, 2) if (o == 1 or wave in ("rrc", "rc")) and (number == 1 or wave != "chirp")]
    try:  # Compiles sparse operations before forking
        devices(Acc("P33"), ("devices", "simplex", "rect", "none", 1, 1, 1))
    except Exception:
        pass  # Reported by the case itself
    check.explore(run_cases, chunks(cases, 200), case_timeout=60)
    check.bounds = {"cases": len(cases), "waveforms": list(WAVES), "codings": list(CODES), "antennas": [list(x) for _, xs in PRECODINGS.values() for x in xs], "frames": "up to 59" if t else "up to 24", "operations": 4 if t else 3}
    check.assumptions = ["channels are flat and known to the receiver, or ideal", "symbol energies of truncated pulses are accurate to 3 %"]
