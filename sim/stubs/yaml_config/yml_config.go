// Package yaml_config is a simulator stand-in for github.com/hrygo/yaml_config
// v1.2.5.  Values come from the run's specification instead of a YAML file; the
// typed cache in front of them is the library's own code.
package yaml_config

import (
	"encoding/json"
	"strconv"
	"strings"
	"sync"
	"time"

	"simrt"
	"simrt/simos"
)

type YmlConfig interface {
	ConfigFileChangeListen()
	Clone(fileName string) YmlConfig
	Get(keyName string) interface{}
	GetString(keyName string) string
	GetBool(keyName string) bool
	GetInt(keyName string) int
	GetInt32(keyName string) int32
	GetInt64(keyName string) int64
	GetFloat64(keyName string) float64
	GetDuration(keyName string) time.Duration
	GetStringSlice(keyName string) []string
	BasePath() string
}

type values struct{ m map[string]interface{} }

func (v values) Get(k string) interface{} { return v.m[strings.ToLower(k)] }
func (v values) GetString(k string) string {
	switch x := v.Get(k).(type) {
	case string:
		return x
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	case bool:
		return strconv.FormatBool(x)
	}
	return ""
}
func (v values) GetBool(k string) bool {
	switch x := v.Get(k).(type) {
	case string:
		b, _ := strconv.ParseBool(x)
		return b
	case float64:
		return x != 0
	case bool:
		return x
	}
	return false
}
func (v values) GetFloat64(k string) float64 {
	switch x := v.Get(k).(type) {
	case string:
		b, _ := strconv.ParseFloat(x, 64)
		return b
	case float64:
		return x
	}
	return 0
}
func (v values) GetInt64(k string) int64 { return int64(v.GetFloat64(k)) }
func (v values) GetInt32(k string) int32 { return int32(int64(v.GetFloat64(k))) }
func (v values) GetInt(k string) int     { return int(v.GetFloat64(k)) }
func (v values) GetDuration(k string) time.Duration {
	switch x := v.Get(k).(type) {
	case string:
		d, err := time.ParseDuration(x)
		if err != nil {
			n, _ := strconv.ParseFloat(x, 64)
			return time.Duration(n)
		}
		return d
	case float64:
		return time.Duration(x)
	}
	return 0
}
func (v values) GetStringSlice(k string) []string {
	switch x := v.Get(k).(type) {
	case string:
		return strings.Fields(x)
	case []interface{}:
		var r []string
		for _, e := range x {
			if s, ok := e.(string); ok {
				r = append(r, s)
			}
		}
		return r
	}
	return []string{}
}

type ymlLoader struct {
	v        values
	mu       *sync.Mutex
	c        *containers
	basePath string
}

func load(project string) values {
	var spec struct {
		Config map[string]map[string]interface{} `json:"config"`
	}
	_ = json.Unmarshal(simrt.SpecJSON, &spec)
	m := map[string]interface{}{}
	for k, v := range spec.Config[project] {
		m[strings.ToLower(k)] = v
	}
	return values{m}
}

// CreateYamlFactory as in the library; the project names the value set.
func CreateYamlFactory(relativePath string, fileName string, project string) YmlConfig {
	p := fileName + "_"
	if fileName == "" {
		p = "config_"
	}
	// the two halves of the system are separate programs with separate caches
	y := &ymlLoader{v: load(project), mu: new(sync.Mutex), c: CreateContainer(project + p), basePath: BasePath(project)}
	loaded = append(loaded, y)
	projects = append(projects, project)
	return y
}

var (
	loaded   []*ymlLoader
	projects []string
)

// Change is an edit of a project's configuration file, noticed at once.  Each
// look-up is one step: the library's own race between a look-up and a change is
// not what is studied here.
func Change(project string, kv map[string]interface{}) {
	for i, y := range loaded {
		if projects[i] != project {
			continue
		}
		for k, v := range kv {
			y.v.m[strings.ToLower(k)] = v
		}
		y.clearCache()
	}
}

func (y *ymlLoader) BasePath() string                { return y.basePath }
func (y *ymlLoader) ConfigFileChangeListen()         {}
func (y *ymlLoader) Clone(fileName string) YmlConfig { return y }

// keyIsCache 判断相关键是否已经缓存
func (y *ymlLoader) keyIsCache(keyName string) bool {
	if _, exists := y.c.KeyIsExists(keyName); exists {
		return true
	} else {
		return false
	}
}

// 对键值进行缓存
func (y *ymlLoader) cache(keyName string, value interface{}) bool {
	// 避免瞬间缓存键、值时，程序提示键名已经被注册的日志输出
	y.mu.Lock()
	defer y.mu.Unlock()
	if _, exists := y.c.KeyIsExists(keyName); exists {
		return true
	}
	return y.c.Set(keyName, value)
}

// 通过键获取缓存的值
func (y *ymlLoader) getValueFromCache(keyName string) interface{} {
	return y.c.Get(keyName)
}

// 清空已经缓存的配置项信息
func (y *ymlLoader) clearCache() {
	y.c.FuzzyDelete()
}

// Get 一个原始值
func (y *ymlLoader) Get(keyName string) interface{} {
	simrt.Y()
	if y.keyIsCache(keyName) {
		return y.getValueFromCache(keyName)
	} else {
		value := y.v.Get(keyName)
		y.cache(keyName, value)
		return value
	}
}

// GetString 字符串格式返回值
func (y *ymlLoader) GetString(keyName string) string {
	simrt.Y()
	if y.keyIsCache(keyName) {
		return y.getValueFromCache(keyName).(string)
	} else {
		value := y.v.GetString(keyName)
		y.cache(keyName, value)
		return value
	}

}

// GetBool 布尔格式返回值
func (y *ymlLoader) GetBool(keyName string) bool {
	simrt.Y()
	if y.keyIsCache(keyName) {
		return y.getValueFromCache(keyName).(bool)
	} else {
		value := y.v.GetBool(keyName)
		y.cache(keyName, value)
		return value
	}
}

// GetInt 整数格式返回值
func (y *ymlLoader) GetInt(keyName string) int {
	simrt.Y()
	if y.keyIsCache(keyName) {
		return y.getValueFromCache(keyName).(int)
	} else {
		value := y.v.GetInt(keyName)
		y.cache(keyName, value)
		return value
	}
}

// GetInt32 整数格式返回值
func (y *ymlLoader) GetInt32(keyName string) int32 {
	simrt.Y()
	if y.keyIsCache(keyName) {
		return y.getValueFromCache(keyName).(int32)
	} else {
		value := y.v.GetInt32(keyName)
		y.cache(keyName, value)
		return value
	}
}

// GetInt64 整数格式返回值
func (y *ymlLoader) GetInt64(keyName string) int64 {
	simrt.Y()
	if y.keyIsCache(keyName) {
		return y.getValueFromCache(keyName).(int64)
	} else {
		value := y.v.GetInt64(keyName)
		y.cache(keyName, value)
		return value
	}
}

// GetFloat64 小数格式返回值
func (y *ymlLoader) GetFloat64(keyName string) float64 {
	simrt.Y()
	if y.keyIsCache(keyName) {
		return y.getValueFromCache(keyName).(float64)
	} else {
		value := y.v.GetFloat64(keyName)
		y.cache(keyName, value)
		return value
	}
}

// GetDuration 时间单位格式返回值
func (y *ymlLoader) GetDuration(keyName string) time.Duration {
	simrt.Y()
	if y.keyIsCache(keyName) {
		return y.getValueFromCache(keyName).(time.Duration)
	} else {
		value := y.v.GetDuration(keyName)
		y.cache(keyName, value)
		return value
	}
}

// GetStringSlice 字符串切片数格式返回值
func (y *ymlLoader) GetStringSlice(keyName string) []string {
	simrt.Y()
	if y.keyIsCache(keyName) {
		return y.getValueFromCache(keyName).([]string)
	} else {
		value := y.v.GetStringSlice(keyName)
		y.cache(keyName, value)
		return value
	}
}

// BasePath is the working directory.
func BasePath(project string) string { return simos.Cwd + "/" }
