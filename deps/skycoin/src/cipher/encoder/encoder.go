// Package encoder is an offline stand-in for
// github.com/skycoin/skycoin/src/cipher/encoder: little-endian integers,
// uint32 length prefixes for strings, slices and maps, arrays without a
// prefix, structs field by field with the `enc:"-"` tag honoured, and
// ErrBufferUnderflow for short input.
package encoder

import (
	"encoding/binary"
	"errors"
	"fmt"
	"log"
	"math"
	"reflect"
	"sort"
	"strings"
)

// errors
var (
	ErrBufferUnderflow  = errors.New("Not enough buffer data to deserialize")
	ErrBufferOverflow   = errors.New("Not enough buffer data to serialize")
	ErrInvalidOmitEmpty = errors.New("omitempty only supported for the final field in the struct")
	ErrRemainingBytes   = errors.New("Bytes remain in buffer after deserializing object")
	ErrMaxLenExceeded   = errors.New("Maximum length exceeded for variable length field")
	ErrMapDuplicateKeys = errors.New("Duplicate keys encountered while decoding a map")
	ErrInvalidBool      = errors.New("Invalid value for bool type")
)

// ParseTag of a field
func ParseTag(tag string) (string, bool) {
	x := strings.Split(tag, ",")
	for _, o := range x[1:] {
		if o == "omitempty" {
			return x[0], true
		}
	}
	return x[0], false
}

// Serialize panics on an unsupported type
func Serialize(data interface{}) []byte {
	v := reflect.Indirect(reflect.ValueOf(data))
	return enc(nil, v)
}

// SerializeAtomic encodes a fixed-size value
func SerializeAtomic(data interface{}) []byte {
	switch data.(type) {
	case bool, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
		return Serialize(data)
	}
	log.Panic("SerializeAtomic unhandled type")
	return nil
}

// DeserializeAtomic decodes a fixed-size value
func DeserializeAtomic(in []byte, data interface{}) (uint64, error) {
	return DeserializeRaw(in, data)
}

// SerializeString prefixes with length
func SerializeString(s string) []byte { return Serialize(s) }

// DeserializeString decodes
func DeserializeString(in []byte, maxlen int) (s string, n uint64, err error) {
	n, err = DeserializeRaw(in, &s)
	return
}

// SerializeUint32 little-endian
func SerializeUint32(x uint32) []byte { return Serialize(x) }

// DeserializeUint32 little-endian
func DeserializeUint32(in []byte) (x uint32, n uint64, err error) {
	n, err = DeserializeRaw(in, &x)
	return
}

// Size of the encoded value
func Size(v interface{}) (uint64, error) { return uint64(len(Serialize(v))), nil }

// DeserializeRaw into a pointer; returns the number of bytes used
func DeserializeRaw(in []byte, data interface{}) (uint64, error) {
	v := reflect.ValueOf(data)
	if v.Kind() == reflect.Map {
		return run(in, v)
	}
	if v.Kind() != reflect.Ptr {
		return 0, fmt.Errorf("DeserializeRaw value must be a ptr, is %s", v.Kind())
	}
	return run(in, v.Elem())
}

// DeserializeRawExact requires all the bytes to be used
func DeserializeRawExact(in []byte, data interface{}) error {
	n, err := DeserializeRaw(in, data)
	if err != nil {
		return err
	}
	if n != uint64(len(in)) {
		return ErrRemainingBytes
	}
	return nil
}

// DeserializeRawToValue into a reflect value
func DeserializeRawToValue(in []byte, v reflect.Value) (uint64, error) {
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	return run(in, v)
}

// DeserializeRawToValueExact requires all the bytes to be used
func DeserializeRawToValueExact(in []byte, v reflect.Value) error {
	n, err := DeserializeRawToValue(in, v)
	if err == nil && n != uint64(len(in)) {
		err = ErrRemainingBytes
	}
	return err
}

func run(in []byte, v reflect.Value) (uint64, error) {
	d := dec{in}
	if err := d.value(v); err != nil {
		return 0, err
	}
	return uint64(len(in) - len(d.b)), nil
}

func enc(b []byte, v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		return enc(b, v.Elem())
	case reflect.Bool:
		if v.Bool() {
			return append(b, 1)
		}
		return append(b, 0)
	case reflect.Int8:
		return append(b, byte(v.Int()))
	case reflect.Int16:
		return binary.LittleEndian.AppendUint16(b, uint16(v.Int()))
	case reflect.Int32:
		return binary.LittleEndian.AppendUint32(b, uint32(v.Int()))
	case reflect.Int64:
		return binary.LittleEndian.AppendUint64(b, uint64(v.Int()))
	case reflect.Uint8:
		return append(b, byte(v.Uint()))
	case reflect.Uint16:
		return binary.LittleEndian.AppendUint16(b, uint16(v.Uint()))
	case reflect.Uint32:
		return binary.LittleEndian.AppendUint32(b, uint32(v.Uint()))
	case reflect.Uint64:
		return binary.LittleEndian.AppendUint64(b, v.Uint())
	case reflect.Float32:
		return binary.LittleEndian.AppendUint32(b, math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		return binary.LittleEndian.AppendUint64(b, math.Float64bits(v.Float()))
	case reflect.String:
		b = binary.LittleEndian.AppendUint32(b, uint32(v.Len()))
		return append(b, v.String()...)
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				b = append(b, byte(v.Index(i).Uint()))
			}
			return b
		}
		for i := 0; i < v.Len(); i++ {
			b = enc(b, v.Index(i))
		}
		return b
	case reflect.Slice:
		b = binary.LittleEndian.AppendUint32(b, uint32(v.Len()))
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return append(b, v.Bytes()...)
		}
		for i := 0; i < v.Len(); i++ {
			b = enc(b, v.Index(i))
		}
		return b
	case reflect.Map:
		b = binary.LittleEndian.AppendUint32(b, uint32(v.Len()))
		var es []string
		for _, k := range v.MapKeys() {
			es = append(es, string(enc(enc(nil, k), v.MapIndex(k))))
		}
		sort.Strings(es)
		for _, e := range es {
			b = append(b, e...)
		}
		return b
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			tag, omit := ParseTag(f.Tag.Get("enc"))
			if f.PkgPath != "" || tag == "-" || f.Name == "_" {
				continue
			}
			if omit && v.Field(i).Len() == 0 {
				continue
			}
			b = enc(b, v.Field(i))
		}
		return b
	}
	log.Panicf("Encoding unhandled type %s", v.Type().String())
	return nil
}

type dec struct{ b []byte }

func (d *dec) take(n int) ([]byte, error) {
	if n < 0 || n > len(d.b) {
		return nil, ErrBufferUnderflow
	}
	x := d.b[:n]
	d.b = d.b[n:]
	return x, nil
}

func (d *dec) length() (int, error) {
	x, err := d.take(4)
	if err != nil {
		return 0, err
	}
	n := binary.LittleEndian.Uint32(x)
	if uint64(n) > uint64(len(d.b)) {
		return 0, ErrBufferUnderflow
	}
	return int(n), nil
}

func (d *dec) value(v reflect.Value) error {
	var size int
	switch v.Kind() {
	case reflect.Bool, reflect.Int8, reflect.Uint8:
		size = 1
	case reflect.Int16, reflect.Uint16:
		size = 2
	case reflect.Int32, reflect.Uint32, reflect.Float32:
		size = 4
	case reflect.Int64, reflect.Uint64, reflect.Float64:
		size = 8
	}
	if size > 0 {
		x, err := d.take(size)
		if err != nil {
			return err
		}
		var u uint64
		for i := size - 1; i >= 0; i-- {
			u = u<<8 | uint64(x[i])
		}
		switch v.Kind() {
		case reflect.Bool:
			if u > 1 {
				return ErrInvalidBool
			}
			v.SetBool(u == 1)
		case reflect.Int8:
			v.SetInt(int64(int8(u)))
		case reflect.Int16:
			v.SetInt(int64(int16(u)))
		case reflect.Int32:
			v.SetInt(int64(int32(u)))
		case reflect.Int64:
			v.SetInt(int64(u))
		case reflect.Float32:
			v.SetFloat(float64(math.Float32frombits(uint32(u))))
		case reflect.Float64:
			v.SetFloat(math.Float64frombits(u))
		default:
			v.SetUint(u)
		}
		return nil
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		return d.value(v.Elem())
	case reflect.String:
		n, err := d.length()
		if err != nil {
			return err
		}
		x, err := d.take(n)
		if err != nil {
			return err
		}
		v.SetString(string(x))
		return nil
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if err := d.value(v.Index(i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Slice:
		n, err := d.length()
		if err != nil {
			return err
		}
		if n == 0 {
			return nil
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			x, err := d.take(n)
			if err != nil {
				return err
			}
			v.SetBytes(append([]byte(nil), x...))
			return nil
		}
		for i := 0; i < n; i++ {
			e := reflect.New(v.Type().Elem()).Elem()
			if err := d.value(e); err != nil {
				return err
			}
			v.Set(reflect.Append(v, e))
		}
		return nil
	case reflect.Map:
		n, err := d.length()
		if err != nil {
			return err
		}
		if v.IsNil() && v.CanSet() {
			v.Set(reflect.MakeMap(v.Type()))
		}
		for i := 0; i < n; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			e := reflect.New(v.Type().Elem()).Elem()
			if err := d.value(k); err != nil {
				return err
			}
			if err := d.value(e); err != nil {
				return err
			}
			if v.MapIndex(k).IsValid() {
				return ErrMapDuplicateKeys
			}
			v.SetMapIndex(k, e)
		}
		return nil
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			tag, omit := ParseTag(f.Tag.Get("enc"))
			if f.PkgPath != "" || tag == "-" || f.Name == "_" {
				continue
			}
			if omit && len(d.b) == 0 {
				return nil
			}
			if err := d.value(v.Field(i)); err != nil {
				return err
			}
		}
		return nil
	}
	log.Panicf("Decoding unhandled type %s", v.Type().String())
	return nil
}
