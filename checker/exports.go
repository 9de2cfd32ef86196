package main

// The exported functions and methods of the release that was analysed (written by "ocheck exports").
var knownExport = map[string]bool{
	"(*github.com/datawire/ocibuild.configFlags).AddFlagsTo":                            true,
	"(*github.com/datawire/ocibuild/pkg/fsutil.InMemFileReference).FullName":            true,
	"(*github.com/datawire/ocibuild/pkg/fsutil.InMemFileReference).Name":                true,
	"(*github.com/datawire/ocibuild/pkg/fsutil.InMemFileReference).Open":                true,
	"(*github.com/datawire/ocibuild/pkg/python.ConfigParser).Parse":                     true,
	"(*github.com/datawire/ocibuild/pkg/python.Platform).Init":                          true,
	"(*github.com/datawire/ocibuild/pkg/python/pep425.Tag).UnmarshalText":               true,
	"(*github.com/datawire/ocibuild/pkg/python/pep503.HTTPError).Error":                 true,
	"(*github.com/datawire/ocibuild/pkg/python/pyinspect.ImageFS).Join":                 true,
	"(*github.com/datawire/ocibuild/pkg/python/pyinspect.ImageFS).LookPath":             true,
	"(*github.com/datawire/ocibuild/pkg/python/pyinspect.ImageFS).Split":                true,
	"(*github.com/datawire/ocibuild/pkg/python/pyinspect.ImageFS).Stat":                 true,
	"(*github.com/datawire/ocibuild/pkg/python/pyinspect.fileInfo).GID":                 true,
	"(*github.com/datawire/ocibuild/pkg/python/pyinspect.fileInfo).GName":               true,
	"(*github.com/datawire/ocibuild/pkg/python/pyinspect.fileInfo).UID":                 true,
	"(*github.com/datawire/ocibuild/pkg/python/pyinspect.fileInfo).UName":               true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.BuildTag).Cmp":                true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.skipReader).Read":             true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.tarEntry).FullName":           true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.tarEntry).IsDir":              true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.tarEntry).ModTime":            true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.tarEntry).Mode":               true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.tarEntry).Name":               true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.tarEntry).Open":               true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.tarEntry).Size":               true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.tarEntry).Sys":                true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.wheel).Open":                  true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.withRecord).Record":           true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.zipEntry).FullName":           true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.zipEntry).IsDir":              true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.zipEntry).ModTime":            true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.zipEntry).Mode":               true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.zipEntry).Name":               true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.zipEntry).Open":               true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.zipEntry).Size":               true,
	"(*github.com/datawire/ocibuild/pkg/python/pypa/bdist.zipEntry).Sys":                true,
	"(*github.com/datawire/ocibuild/pkg/squash.dirEntry).Info":                          true,
	"(*github.com/datawire/ocibuild/pkg/squash.dirEntry).IsDir":                         true,
	"(*github.com/datawire/ocibuild/pkg/squash.dirEntry).Name":                          true,
	"(*github.com/datawire/ocibuild/pkg/squash.dirEntry).String":                        true,
	"(*github.com/datawire/ocibuild/pkg/squash.dirEntry).Type":                          true,
	"(*github.com/datawire/ocibuild/pkg/squash.fsfile).Get":                             true,
	"(*github.com/datawire/ocibuild/pkg/squash.fsfile).Open":                            true,
	"(*github.com/datawire/ocibuild/pkg/squash.fsfile).Set":                             true,
	"(*github.com/datawire/ocibuild/pkg/squash.fsfile).WriteTo":                         true,
	"(*github.com/datawire/ocibuild/pkg/squash.fsfileReader).Close":                     true,
	"(*github.com/datawire/ocibuild/pkg/squash.fsfileReader).Read":                      true,
	"(*github.com/datawire/ocibuild/pkg/squash.fsfileReader).ReadDir":                   true,
	"(*github.com/datawire/ocibuild/pkg/squash.fsfileReader).Stat":                      true,
	"(*github.com/datawire/ocibuild/pkg/squash.fsfileReader).String":                    true,
	"(github.com/datawire/ocibuild.configFlags).ApplyTo":                                true,
	"(github.com/datawire/ocibuild.configFlags).IsZero":                                 true,
	"(github.com/datawire/ocibuild/pkg/python.StatFileAttribute).ToDOS":                 true,
	"(github.com/datawire/ocibuild/pkg/python.StatMode).IsDir":                          true,
	"(github.com/datawire/ocibuild/pkg/python.StatMode).IsRegular":                      true,
	"(github.com/datawire/ocibuild/pkg/python.StatMode).String":                         true,
	"(github.com/datawire/ocibuild/pkg/python.StatMode).ToGo":                           true,
	"(github.com/datawire/ocibuild/pkg/python.VersionInfo).PEP440":                      true,
	"(github.com/datawire/ocibuild/pkg/python.ZIPExternalAttributes).Raw":               true,
	"(github.com/datawire/ocibuild/pkg/python/pep345.CmpOp).String":                     true,
	"(github.com/datawire/ocibuild/pkg/python/pep345.VersionSpecifier).Match":           true,
	"(github.com/datawire/ocibuild/pkg/python/pep345.VersionSpecifierClause).Match":     true,
	"(github.com/datawire/ocibuild/pkg/python/pep425.Installer).Preference":             true,
	"(github.com/datawire/ocibuild/pkg/python/pep425.Installer).Supports":               true,
	"(github.com/datawire/ocibuild/pkg/python/pep425.Tag).Decompress":                   true,
	"(github.com/datawire/ocibuild/pkg/python/pep425.Tag).MarshalText":                  true,
	"(github.com/datawire/ocibuild/pkg/python/pep425.Tag).String":                       true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.AllowAll).Allow":                   true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.CmpOp).Generate":                   true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.CmpOp).String":                     true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.ExcludePreReleases).Allow":         true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.LocalVersion).Cmp":                 true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.LocalVersion).Generate":            true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.LocalVersion).GoString":            true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.LocalVersion).IsFinal":             true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.LocalVersion).Normalize":           true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.LocalVersion).String":              true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.MultiExcluder).Allow":              true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.PublicVersion).Cmp":                true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.PublicVersion).Generate":           true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.PublicVersion).GoString":           true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.PublicVersion).IsFinal":            true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.PublicVersion).IsPreRelease":       true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.PublicVersion).Major":              true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.PublicVersion).Micro":              true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.PublicVersion).Minor":              true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.PublicVersion).Normalize":          true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.PublicVersion).String":             true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.Specifier).Match":                  true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.Specifier).Select":                 true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.Specifier).String":                 true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.SpecifierClause).Match":            true,
	"(github.com/datawire/ocibuild/pkg/python/pep440.SpecifierClause).String":           true,
	"(github.com/datawire/ocibuild/pkg/python/pep503.Client).ListPackageFiles":          true,
	"(github.com/datawire/ocibuild/pkg/python/pep503.Client).ListPackages":              true,
	"(github.com/datawire/ocibuild/pkg/python/pep503.FileLink).Get":                     true,
	"(github.com/datawire/ocibuild/pkg/python/pep503.FileLink).GetSignature":            true,
	"(github.com/datawire/ocibuild/pkg/python/pep503.PackageLink).ListFiles":            true,
	"(github.com/datawire/ocibuild/pkg/python/pep592.excludeYanked).Allow":              true,
	"(github.com/datawire/ocibuild/pkg/python/pyinspect.NativeFS).Join":                 true,
	"(github.com/datawire/ocibuild/pkg/python/pyinspect.NativeFS).LookPath":             true,
	"(github.com/datawire/ocibuild/pkg/python/pyinspect.NativeFS).Split":                true,
	"(github.com/datawire/ocibuild/pkg/python/pyinspect.NativeFS).Stat":                 true,
	"(github.com/datawire/ocibuild/pkg/python/pypa/bdist.BuildTag).String":              true,
	"(github.com/datawire/ocibuild/pkg/python/pypa/simple_repo_api.Client).SelectWheel": true,
	"(github.com/datawire/ocibuild/pkg/squash.missingDirEntry).Info":                    true,
	"(github.com/datawire/ocibuild/pkg/squash.missingDirEntry).IsDir":                   true,
	"(github.com/datawire/ocibuild/pkg/squash.missingDirEntry).Name":                    true,
	"(github.com/datawire/ocibuild/pkg/squash.missingDirEntry).String":                  true,
	"(github.com/datawire/ocibuild/pkg/squash.missingDirEntry).Type":                    true,
	"github.com/datawire/ocibuild/pkg/cliutil.FlagErrorFunc":                            true,
	"github.com/datawire/ocibuild/pkg/cliutil.GetTerminalWidth":                         true,
	"github.com/datawire/ocibuild/pkg/cliutil.OnlySubcommands":                          true,
	"github.com/datawire/ocibuild/pkg/cliutil.RunSubcommands":                           true,
	"github.com/datawire/ocibuild/pkg/cliutil.Wrap":                                     true,
	"github.com/datawire/ocibuild/pkg/cliutil.WrapIndent":                               true,
	"github.com/datawire/ocibuild/pkg/cliutil.WrapPositionalArgs":                       true,
	"github.com/datawire/ocibuild/pkg/dir.LayerFromDir":                                 true,
	"github.com/datawire/ocibuild/pkg/dockerutil.WithImage":                             true,
	"github.com/datawire/ocibuild/pkg/fsutil.LayerFromFileReferences":                   true,
	"github.com/datawire/ocibuild/pkg/fsutil.LayersEqualExceptTimestamps":               true,
	"github.com/datawire/ocibuild/pkg/fsutil.OpenImage":                                 true,
	"github.com/datawire/ocibuild/pkg/fsutil.OpenLayer":                                 true,
	"github.com/datawire/ocibuild/pkg/fsutil.PathOpener":                                true,
	"github.com/datawire/ocibuild/pkg/fsutil.WriteLayer":                                true,
	"github.com/datawire/ocibuild/pkg/gobuild.LayerFromGo":                              true,
	"github.com/datawire/ocibuild/pkg/htmlutil.GetAttr":                                 true,
	"github.com/datawire/ocibuild/pkg/htmlutil.VisitHTML":                               true,
	"github.com/datawire/ocibuild/pkg/python.ExternalCompiler":                          true,
	"github.com/datawire/ocibuild/pkg/python.ModeFromGo":                                true,
	"github.com/datawire/ocibuild/pkg/python.NewConfigParser":                           true,
	"github.com/datawire/ocibuild/pkg/python.NoInterpolation":                           true,
	"github.com/datawire/ocibuild/pkg/python.ParseZIPExternalAttributes":                true,
	"github.com/datawire/ocibuild/pkg/python/pep345.HaveRequiredPython":                 true,
	"github.com/datawire/ocibuild/pkg/python/pep345.ParseVersionSpecifier":              true,
	"github.com/datawire/ocibuild/pkg/python/pep376.RecordRequested":                    true,
	"github.com/datawire/ocibuild/pkg/python/pep425.Intersect":                          true,
	"github.com/datawire/ocibuild/pkg/python/pep425.ParseTag":                           true,
	"github.com/datawire/ocibuild/pkg/python/pep440.ParseSpecifier":                     true,
	"github.com/datawire/ocibuild/pkg/python/pep440.ParseVersion":                       true,
	"github.com/datawire/ocibuild/pkg/python/pep592.ExcludeYanked":                      true,
	"github.com/datawire/ocibuild/pkg/python/pep592.IsYanked":                           true,
	"github.com/datawire/ocibuild/pkg/python/pep629.GetVersion":                         true,
	"github.com/datawire/ocibuild/pkg/python/pep629.HTMLVersionCheck":                   true,
	"github.com/datawire/ocibuild/pkg/python/pyinspect.Dynamic":                         true,
	"github.com/datawire/ocibuild/pkg/python/pyinspect.Shebangs":                        true,
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist.GenerateFilename":               true,
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist.InstallWheel":                   true,
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist.ParseFilename":                  true,
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist.PostInstallHooks":               true,
	"github.com/datawire/ocibuild/pkg/python/pypa/direct_url.Record":                    true,
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points.CreateScripts":           true,
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs.Record":            true,
	"github.com/datawire/ocibuild/pkg/python/pypa/simple_repo_api.NewClient":            true,
	"github.com/datawire/ocibuild/pkg/reproducible.Now":                                 true,
	"github.com/datawire/ocibuild/pkg/squash.Load":                                      true,
	"github.com/datawire/ocibuild/pkg/squash.Squash":                                    true,
	"github.com/datawire/ocibuild/pkg/testutil.AssertEqualLayers":                       true,
	"github.com/datawire/ocibuild/pkg/testutil.DumpLayerFull":                           true,
	"github.com/datawire/ocibuild/pkg/testutil.DumpLayerListing":                        true,
	"github.com/datawire/ocibuild/pkg/testutil.QuickCheck":                              true,
	"github.com/datawire/ocibuild/pkg/testutil.QuickCheckEqual":                         true,
}
